From 7cdaa383f4d8310fa65fff54537831d46827de1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:27 +0000
Subject: [PATCH 01/52] fix: Standardize guards every zero-variance column
 against division by zero

---
 src/wai/ma/transformation/_Standardize.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wai/ma/transformation/_Standardize.py b/src/wai/ma/transformation/_Standardize.py
index 22b31fc..acf672d 100644
--- a/src/wai/ma/transformation/_Standardize.py
+++ b/src/wai/ma/transformation/_Standardize.py
@@ -37,9 +37,9 @@ class Standardize(AbstractTransformation, Serialisable):
         self.means = column_means(data)
         self.std_devs = column_stdevs(data)
         # Make sure we don't do a divide by zero
-        for i in range(self.std_devs.num_rows()):
-            if self.std_devs.get(i, 0) == real(0):
-                self.std_devs.set(i, 0, 1)
+        for i in range(self.std_devs.num_columns()):
+            if self.std_devs.get(0, i) == real(0):
+                self.std_devs.set(0, i, 1)
         self.configured = True
 
     def do_transform(self, data: Matrix) -> Matrix:
-- 
2.43.0


From cec4396fbb6b20f6cda0257ba9d536affc0f0b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:30 +0000
Subject: [PATCH 02/52] fix: inverse_transform leaves it to configure() to
 decide whether a transformation stays configured (RowNorm reconfigures on
 every input)

---
 src/wai/ma/transformation/_AbstractTransformation.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/wai/ma/transformation/_AbstractTransformation.py b/src/wai/ma/transformation/_AbstractTransformation.py
index da1bc57..ceb0e09 100644
--- a/src/wai/ma/transformation/_AbstractTransformation.py
+++ b/src/wai/ma/transformation/_AbstractTransformation.py
@@ -47,7 +47,6 @@ class AbstractTransformation(Filter, ABC):
     def inverse_transform(self, data: Matrix) -> Matrix:
         if not self.configured:
             self.configure(data)
-            self.configured = True
         return self.do_inverse_transform(data)
 
     @classmethod
-- 
2.43.0


From 825a204cdc78f6a4a1927cb84289c1c291c81cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:33 +0000
Subject: [PATCH 03/52] fix: multi-response PLS keeps the mean and stddev of
 each response column

---
 src/wai/ma/algorithm/pls/_AbstractMultiResponsePLS.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wai/ma/algorithm/pls/_AbstractMultiResponsePLS.py b/src/wai/ma/algorithm/pls/_AbstractMultiResponsePLS.py
index 8fed41d..af5e61b 100644
--- a/src/wai/ma/algorithm/pls/_AbstractMultiResponsePLS.py
+++ b/src/wai/ma/algorithm/pls/_AbstractMultiResponsePLS.py
@@ -98,13 +98,13 @@ class AbstractMultiResponsePLS(AbstractPLS):
         self.class_std_dev = [real(0)] * response.num_columns()
         for i in range(response.num_columns()):
             if self.preprocessing_type is PreprocessingType.CENTER:
-                self.class_mean[i] = helper.mean(response, 0)
+                self.class_mean[i] = helper.mean(response, i)
                 self.class_std_dev[i] = real(1)
                 self.trans_predictors = Center()
                 self.trans_response = Center()
             elif self.preprocessing_type is PreprocessingType.STANDARDIZE:
-                self.class_mean[i] = helper.mean(response, 0)
-                self.class_std_dev[i] = helper.stdev(response, 0)
+                self.class_mean[i] = helper.mean(response, i)
+                self.class_std_dev[i] = helper.stdev(response, i)
                 self.trans_predictors = Standardize()
                 self.trans_response = Standardize()
             elif self.preprocessing_type is PreprocessingType.NONE:
-- 
2.43.0


From 88429c22fe8e5441a9cc1bc8d4fc5cc0b70a1dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:58 +0000
Subject: [PATCH 04/52] fix: PLS predict/transform apply the preprocessing
 configured during training to new predictors

---
 .../algorithm/pls/_AbstractMultiResponsePLS.py   | 11 +++++++++++
 src/wai/ma/algorithm/pls/_AbstractPLS.py         | 16 ++++++++++++++--
 .../algorithm/pls/_AbstractSingleResponsePLS.py  | 11 +++++++++++
 src/wai/ma/algorithm/pls/_OPLS.py                |  2 +-
 4 files changed, 37 insertions(+), 3 deletions(-)

diff --git a/src/wai/ma/algorithm/pls/_AbstractMultiResponsePLS.py b/src/wai/ma/algorithm/pls/_AbstractMultiResponsePLS.py
index af5e61b..faeaa36 100644
--- a/src/wai/ma/algorithm/pls/_AbstractMultiResponsePLS.py
+++ b/src/wai/ma/algorithm/pls/_AbstractMultiResponsePLS.py
@@ -126,6 +126,17 @@ class AbstractMultiResponsePLS(AbstractPLS):
 
         return result
 
+    def preprocess_predictors(self, predictors: Matrix) -> Matrix:
+        """
+        Applies the preprocessing that was configured during training.
+
+        :param predictors:  The input data.
+        :return:            The preprocessed data.
+        """
+        if self.trans_predictors is not None:
+            return self.trans_predictors.transform(predictors)
+        return predictors
+
     def do_predict(self, predictors: Matrix) -> Matrix:
         """
         Performs predictions on the data.
diff --git a/src/wai/ma/algorithm/pls/_AbstractPLS.py b/src/wai/ma/algorithm/pls/_AbstractPLS.py
index ea6e2ae..ebe311f 100644
--- a/src/wai/ma/algorithm/pls/_AbstractPLS.py
+++ b/src/wai/ma/algorithm/pls/_AbstractPLS.py
@@ -137,6 +137,18 @@ class AbstractPLS(AbstractAlgorithm, SupervisedFilter):
         """
         pass
 
+    def preprocess_predictors(self, predictors: Matrix) -> Matrix:
+        """
+        Hook method for applying the preprocessing that was configured
+        during training to new predictors.
+
+        Default implementation does nothing.
+
+        :param predictors:  The input data.
+        :return:            The preprocessed data.
+        """
+        return predictors
+
     @abstractmethod
     def do_predict(self, predictors: Matrix) -> Matrix:
         """
@@ -157,7 +169,7 @@ class AbstractPLS(AbstractAlgorithm, SupervisedFilter):
         if not self.is_initialised():
             raise RuntimeError('Algorithm has not been initialised!')
 
-        return self.do_predict(predictors)
+        return self.do_predict(self.preprocess_predictors(predictors))
 
     @abstractmethod
     def do_transform(self, predictors: Matrix) -> Matrix:
@@ -179,7 +191,7 @@ class AbstractPLS(AbstractAlgorithm, SupervisedFilter):
         if not self.is_initialised():
             raise RuntimeError('Algorithm has not been initialised!')
 
-        return self.do_transform(predictors)
+        return self.do_transform(self.preprocess_predictors(predictors))
 
     @abstractmethod
     def do_perform_initialization(self, predictors: Matrix, response: Matrix) -> Optional[str]:
diff --git a/src/wai/ma/algorithm/pls/_AbstractSingleResponsePLS.py b/src/wai/ma/algorithm/pls/_AbstractSingleResponsePLS.py
index a02e056..629b6d2 100644
--- a/src/wai/ma/algorithm/pls/_AbstractSingleResponsePLS.py
+++ b/src/wai/ma/algorithm/pls/_AbstractSingleResponsePLS.py
@@ -87,6 +87,17 @@ class AbstractSingleResponsePLS(AbstractPLS, ABC):
 
         return result
 
+    def preprocess_predictors(self, predictors: Matrix) -> Matrix:
+        """
+        Applies the preprocessing that was configured during training.
+
+        :param predictors:  The input data.
+        :return:            The preprocessed data.
+        """
+        if self.trans_predictors is not None:
+            return self.trans_predictors.transform(predictors)
+        return predictors
+
     def do_predict(self, predictors: Matrix) -> Matrix:
         """
         Performs predictions on the data.
diff --git a/src/wai/ma/algorithm/pls/_OPLS.py b/src/wai/ma/algorithm/pls/_OPLS.py
index 5237fc9..f7f5ab9 100644
--- a/src/wai/ma/algorithm/pls/_OPLS.py
+++ b/src/wai/ma/algorithm/pls/_OPLS.py
@@ -189,5 +189,5 @@ class OPLS(AbstractSingleResponsePLS):
         :param predictors:  The input data.
         :return:            The transformed data and the predictions.
         """
-        X_transformed: Matrix = self.transform(predictors)
+        X_transformed: Matrix = self.do_transform(predictors)
         return self.base_PLS.predict(X_transformed)
-- 
2.43.0


From e1b6c1049df439769a59defe10a1ca0fd4473d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:12 +0000
Subject: [PATCH 05/52] fix: NIPALS can be trained on more than one response
 column

---
 src/wai/ma/algorithm/pls/_NIPALS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/algorithm/pls/_NIPALS.py b/src/wai/ma/algorithm/pls/_NIPALS.py
index 9bf596b..91de6c6 100644
--- a/src/wai/ma/algorithm/pls/_NIPALS.py
+++ b/src/wai/ma/algorithm/pls/_NIPALS.py
@@ -153,7 +153,7 @@ class NIPALS(AbstractMultiResponsePLS):
             self.Y_rotations = factory.filled(1, 1, ONE)
 
         # Calculate regression coefficients
-        y_stds: Matrix = self.standardize_Y.get_std_devs()
+        y_stds: Matrix = self.standardize_Y.get_std_devs().transpose()
         self.coef = self.X_rotations.mul(self.Y_loadings.transpose()).scale_by_row_vector(y_stds)
         return None
 
-- 
2.43.0


From 5b83c29aedaa41da35794115f267bf9ba725aa24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:15 +0000
Subject: [PATCH 06/52] fix: NIPALS inner loop iterates on the updated Y scores

---
 src/wai/ma/algorithm/pls/_NIPALS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/algorithm/pls/_NIPALS.py b/src/wai/ma/algorithm/pls/_NIPALS.py
index 91de6c6..337a13a 100644
--- a/src/wai/ma/algorithm/pls/_NIPALS.py
+++ b/src/wai/ma/algorithm/pls/_NIPALS.py
@@ -211,7 +211,7 @@ class NIPALS(AbstractMultiResponsePLS):
                 Y_weight = Y_weight.div(Y_weight.norm2() + eps)
 
             # 4) Calculate ykScores
-            Y_score: Matrix = Y.mul(Y_weight).div(Y_weight.norm2_squared() + eps)
+            y_score = Y.mul(Y_weight).div(Y_weight.norm2_squared() + eps)
 
             X_weight_diff: Matrix = X_weight.sub(X_weight_old)
 
-- 
2.43.0


From af06cd2aa43a488600fafb795acf1d8b2267c29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:17 +0000
Subject: [PATCH 07/52] fix: CCA weights use the pseudo-inverse, also for
 square (deflated, hence singular) matrices

---
 src/wai/ma/algorithm/pls/_NIPALS.py | 4 ++--
 src/wai/ma/core/matrix/_Matrix.py   | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/wai/ma/algorithm/pls/_NIPALS.py b/src/wai/ma/algorithm/pls/_NIPALS.py
index 337a13a..05cb669 100644
--- a/src/wai/ma/algorithm/pls/_NIPALS.py
+++ b/src/wai/ma/algorithm/pls/_NIPALS.py
@@ -181,7 +181,7 @@ class NIPALS(AbstractMultiResponsePLS):
             if self.get_weight_calculation_mode() is WeightCalculationMode.CCA:
                 if X_p_inv is None:
                     # sklearn uses pinv here which ojAlgo implicitly does
-                    X_p_inv = X.inverse()
+                    X_p_inv = X.pseudo_inverse()
                 X_weight: Matrix = X_p_inv.mul(y_score)
             else:  # PLS
                 X_weight: Matrix = X.transpose().mul(y_score).div(y_score.norm2_squared())
@@ -200,7 +200,7 @@ class NIPALS(AbstractMultiResponsePLS):
             if self.get_weight_calculation_mode() is WeightCalculationMode.CCA:
                 if Y_p_inv is None:
                     # sklearn uses pinv here which ojAlgo implicitly does
-                    Y_p_inv = Y.inverse()
+                    Y_p_inv = Y.pseudo_inverse()
                 Y_weight: Matrix = Y_p_inv.mul(X_score)
             else:  # PLS
                 # WeightCalculationMode A: Regress each Y column on xscore
diff --git a/src/wai/ma/core/matrix/_Matrix.py b/src/wai/ma/core/matrix/_Matrix.py
index 11be11c..15b21cf 100644
--- a/src/wai/ma/core/matrix/_Matrix.py
+++ b/src/wai/ma/core/matrix/_Matrix.py
@@ -614,7 +614,8 @@ class Matrix(Serialisable):
         return self.num_rows() == self.num_columns()
 
     def pseudo_inverse(self):
-        return Matrix(np.linalg.pinv(self.data))
+        # Singular values below working precision are zero (same cut-off as inverse())
+        return Matrix(np.linalg.pinv(self.data, rcond=max(self.data.shape) * np.finfo(real).eps))
 
     def serialise_state(self, stream: IO[bytes]):
         # Write the number of rows and columns
-- 
2.43.0


From 0ff73a7bbba86410fd1f8a9b61af6b69102e7ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:24 +0000
Subject: [PATCH 08/52] fix: Matrix.contains_NaN detects NaN elements

---
 src/wai/ma/core/matrix/_Matrix.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/wai/ma/core/matrix/_Matrix.py b/src/wai/ma/core/matrix/_Matrix.py
index 15b21cf..5c8230b 100644
--- a/src/wai/ma/core/matrix/_Matrix.py
+++ b/src/wai/ma/core/matrix/_Matrix.py
@@ -463,10 +463,7 @@ class Matrix(Serialisable):
         raise NotImplementedError
 
     def contains_NaN(self) -> bool:
-        NaN = real('NaN')
-        def element_is_NaN(el):
-            return el == NaN
-        return self.any(element_is_NaN)
+        return self.any(np.isnan)
 
     def any(self, function: Callable[[real], bool]) -> bool:
         for row in range(self.num_rows()):
-- 
2.43.0


From 735019d77776dfea5d9dc38cac5a795ef5c1b8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:29 +0000
Subject: [PATCH 09/52] fix: comparing matrices of different shapes yields
 unequal instead of raising

---
 src/wai/ma/core/matrix/_Matrix.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/wai/ma/core/matrix/_Matrix.py b/src/wai/ma/core/matrix/_Matrix.py
index 5c8230b..29c5615 100644
--- a/src/wai/ma/core/matrix/_Matrix.py
+++ b/src/wai/ma/core/matrix/_Matrix.py
@@ -506,6 +506,9 @@ class Matrix(Serialisable):
         if other is None or self.__class__ is not other.__class__:
             return False
 
+        if not self.same_shape_as(other):
+            return False
+
         diff: Matrix = self.sub(other)
 
         return not diff.data.any()
-- 
2.43.0


From 4af672e4b72640f5dea4011023d0e6cb830a1b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:32 +0000
Subject: [PATCH 10/52] fix: get_singular_values computes the decomposition it
 reads from

---
 src/wai/ma/core/matrix/_Matrix.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wai/ma/core/matrix/_Matrix.py b/src/wai/ma/core/matrix/_Matrix.py
index 29c5615..e9698c4 100644
--- a/src/wai/ma/core/matrix/_Matrix.py
+++ b/src/wai/ma/core/matrix/_Matrix.py
@@ -141,6 +141,7 @@ class Matrix(Serialisable):
         return Matrix(np.array(raw, dtype=real))
 
     def get_singular_values(self) -> 'Matrix':
+        self.make_singular_value_decomposition()
         return self.singular_value_decomposition[1].transpose()
 
     def sum(self, axis: Optional[int] = None) -> Union['Matrix', real]:
-- 
2.43.0


From 7e4e4921dfb020d093f25f396e7e9085bb18c3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:37 +0000
Subject: [PATCH 11/52] fix: in-place vector operations and fill_diagonal
 invalidate cached decompositions

---
 src/wai/ma/core/matrix/_Matrix.py | 1 +
 src/wai/ma/core/matrix/helper.py  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/wai/ma/core/matrix/_Matrix.py b/src/wai/ma/core/matrix/_Matrix.py
index e9698c4..df48904 100644
--- a/src/wai/ma/core/matrix/_Matrix.py
+++ b/src/wai/ma/core/matrix/_Matrix.py
@@ -551,6 +551,7 @@ class Matrix(Serialisable):
     def vector_op_modify(self, vector: 'Matrix', op: np.ufunc):
         must_be_vector(vector)
         self.ensure_vector_size_matches(vector)
+        self.reset_cache()
         op.at(self.data, ..., vector.data)
 
     def vector_size_matches(self, vector: 'Matrix') -> bool:
diff --git a/src/wai/ma/core/matrix/helper.py b/src/wai/ma/core/matrix/helper.py
index 695f151..e1c9383 100644
--- a/src/wai/ma/core/matrix/helper.py
+++ b/src/wai/ma/core/matrix/helper.py
@@ -222,6 +222,7 @@ def column_stdevs(mat: Matrix) -> Matrix:
 
 
 def fill_diagonal(mat: Matrix, value: Number):
+    mat.reset_cache()
     i = 0
     while i < mat.num_rows() and i < mat.num_columns():
         mat.data[i][i] = real(value)
-- 
2.43.0


From b46fd545bbeb9700d6a6d2adb25e1b8ecd5bb947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:42 +0000
Subject: [PATCH 12/52] fix: get_eigenvalue_decomposition_V returns a copy, not
 the cached matrix

---
 src/wai/ma/core/matrix/_Matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/core/matrix/_Matrix.py b/src/wai/ma/core/matrix/_Matrix.py
index df48904..5acc532 100644
--- a/src/wai/ma/core/matrix/_Matrix.py
+++ b/src/wai/ma/core/matrix/_Matrix.py
@@ -85,7 +85,7 @@ class Matrix(Serialisable):
 
     def get_eigenvalue_decomposition_V(self) -> 'Matrix':
         self.make_eigenvalue_decomposition()
-        return self.eigenvalue_decomposition[1]
+        return self.eigenvalue_decomposition[1].copy()
 
     def get_eigenvalue_decomposition_D(self) -> 'Matrix':
         self.make_eigenvalue_decomposition()
-- 
2.43.0


From a43f5f9950eadf137ad9965f3d48afcf43899e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:47 +0000
Subject: [PATCH 13/52] fix: a 1 x 1 vector matches single-row matrices as a
 column vector, too

---
 src/wai/ma/core/matrix/_Matrix.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/wai/ma/core/matrix/_Matrix.py b/src/wai/ma/core/matrix/_Matrix.py
index 5acc532..b49e5fe 100644
--- a/src/wai/ma/core/matrix/_Matrix.py
+++ b/src/wai/ma/core/matrix/_Matrix.py
@@ -555,12 +555,8 @@ class Matrix(Serialisable):
         op.at(self.data, ..., vector.data)
 
     def vector_size_matches(self, vector: 'Matrix') -> bool:
-        if not vector.is_vector():
-            return False
-        elif vector.is_row_vector():
-            return self.num_columns() == vector.num_columns()
-        else:
-            return self.num_rows() == vector.num_rows()
+        return (vector.is_row_vector() and self.num_columns() == vector.num_columns()) or \
+               (vector.is_column_vector() and self.num_rows() == vector.num_rows())
 
     def ensure_vector_size_matches(self, vector: 'Matrix'):
         if not self.vector_size_matches(vector):
-- 
2.43.0


From 5c12e4cf2fe804139e34f57e9f0bfb29d9ddec65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:07 +0000
Subject: [PATCH 14/52] fix: utils.max_index returns the index of the maximum

---
 src/wai/ma/core/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/core/utils.py b/src/wai/ma/core/utils.py
index 12248ef..0539e9f 100644
--- a/src/wai/ma/core/utils.py
+++ b/src/wai/ma/core/utils.py
@@ -246,7 +246,7 @@ def max_index(reals: List[real]) -> int:
 
     for i in range(len(reals)):
         if i == 0 or reals[i] > maximum:
-            max_index = 1
+            max_index = i
             maximum = reals[i]
 
     return max_index
-- 
2.43.0


From a9e4a5b2a0fc21496c608cc3a33ac36337cd61d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:11 +0000
Subject: [PATCH 15/52] fix: utils.sort orders lists of any number type and
 treats NaN as the maximum value, as documented

---
 src/wai/ma/core/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/core/utils.py b/src/wai/ma/core/utils.py
index 0539e9f..b7b8c67 100644
--- a/src/wai/ma/core/utils.py
+++ b/src/wai/ma/core/utils.py
@@ -185,7 +185,7 @@ def sort(array: List[real]) -> List[int]:
     """
     index = initial_index(len(array))
     if len(array) > 1:
-        array = list(array)
+        array = [np.finfo(real).max if np.isnan(x) else real(x) for x in array]
         quick_sort(array, index, 0, len(array) - 1)
     return index
 
-- 
2.43.0


From 94a608d52a5407becaa445c7d596c0c089f82109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:15 +0000
Subject: [PATCH 16/52] fix: real_to_string_fixed recognises NaN

---
 src/wai/ma/core/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/core/utils.py b/src/wai/ma/core/utils.py
index b7b8c67..951242a 100644
--- a/src/wai/ma/core/utils.py
+++ b/src/wai/ma/core/utils.py
@@ -264,7 +264,7 @@ def real_to_string_fixed(value: real, after_decimal_point: int) -> str:
     :return:                        The real as a formatted string.
     """
     # Special numbers
-    if value == real(NAN):
+    if np.isnan(value):
         return NAN
     elif value == real(NEGATIVE_INFINITY):
         return NEGATIVE_INFINITY
-- 
2.43.0


From c54010af5b1980fbd06755d78074c2b2b7cbc563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:19 +0000
Subject: [PATCH 17/52] fix: save_state accepts a file name without a directory

---
 src/wai/ma/core/_Serialisable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/core/_Serialisable.py b/src/wai/ma/core/_Serialisable.py
index 7890553..daf6611 100644
--- a/src/wai/ma/core/_Serialisable.py
+++ b/src/wai/ma/core/_Serialisable.py
@@ -45,7 +45,7 @@ class Serialisable(ABC):
         """
         # Make sure the directory for the file exists
         path = os.path.dirname(filename)
-        if not os.path.exists(path):
+        if path != '' and not os.path.exists(path):
             os.makedirs(path, exist_ok=True)
 
         # Save the file
-- 
2.43.0


From a9e22f99c0470d689bc6ee63955e91b1d43ba0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:22 +0000
Subject: [PATCH 18/52] fix: serialise_big_int reserves space for the sign bit

---
 src/wai/ma/core/_Serialisable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wai/ma/core/_Serialisable.py b/src/wai/ma/core/_Serialisable.py
index daf6611..5ec14a5 100644
--- a/src/wai/ma/core/_Serialisable.py
+++ b/src/wai/ma/core/_Serialisable.py
@@ -95,8 +95,8 @@ class Serialisable(ABC):
         # Get the number of bits required to represent this value.
         bit_length: int = value.bit_length()
 
-        # Get the number of bytes required to represent this value
-        byte_length: int = (bit_length // 8) + (1 if bit_length % 8 != 0 else 0)
+        # Get the number of bytes required to represent this value (incl. the sign bit)
+        byte_length: int = (bit_length // 8) + 1
 
         # Get the binary representation of the integer
         b = value.to_bytes(byte_length, "little" if LITTLE_ENDIAN else "big", signed=True)
-- 
2.43.0


From 3d2fcb1cfa7a7775f8abee57b4158b4ec7b952cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:44 +0000
Subject: [PATCH 19/52] fix: reading an empty file handle reports the missing
 rows instead of a TypeError

---
 src/wai/ma/core/matrix/helper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wai/ma/core/matrix/helper.py b/src/wai/ma/core/matrix/helper.py
index e1c9383..85c0fc3 100644
--- a/src/wai/ma/core/matrix/helper.py
+++ b/src/wai/ma/core/matrix/helper.py
@@ -109,12 +109,12 @@ def read(filename: Union[str, IO[str]], header: bool, separator: str) -> Matrix:
         lines = [line for line in filename]
 
     if len(lines) == 0:
-        raise RuntimeError('No rows in file: ' + filename)
+        raise RuntimeError('No rows in file: ' + str(filename))
 
     if header:
         lines = lines[1:]
     if len(lines) == 0:
-        raise RuntimeError('No data rows in file: ' + filename)
+        raise RuntimeError('No data rows in file: ' + str(filename))
 
     sep = separator
     cells = lines[0].split(sep)
-- 
2.43.0


From 717d1454fa72a786b3217dc5aa1b1952c6bd03e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:18 +0000
Subject: [PATCH 20/52] fix: FastICA centers every data set with its own means

---
 src/wai/ma/algorithm/ica/_FastICA.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wai/ma/algorithm/ica/_FastICA.py b/src/wai/ma/algorithm/ica/_FastICA.py
index e6107ee..29c223c 100644
--- a/src/wai/ma/algorithm/ica/_FastICA.py
+++ b/src/wai/ma/algorithm/ica/_FastICA.py
@@ -73,6 +73,7 @@ class FastICA(AbstractAlgorithm, Filter):
         self.components = None
         self.mixing = None
         self.whitening = None
+        self.center = Center()
 
     def configure(self, X: Matrix):
         X = X.transpose()
-- 
2.43.0


From 856212eea2e93f61344bd974cbc110989536db75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:22 +0000
Subject: [PATCH 21/52] fix: FastICA.reconstruct rebuilds the data in its
 original orientation

---
 src/wai/ma/algorithm/ica/_FastICA.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/wai/ma/algorithm/ica/_FastICA.py b/src/wai/ma/algorithm/ica/_FastICA.py
index 29c223c..d57345a 100644
--- a/src/wai/ma/algorithm/ica/_FastICA.py
+++ b/src/wai/ma/algorithm/ica/_FastICA.py
@@ -253,7 +253,9 @@ class FastICA(AbstractAlgorithm, Filter):
 
     def reconstruct(self) -> Matrix:
         if self.is_initialised():
-            return self.center.inverse_transform(self.sources.mul(self.mixing.transpose()).transpose()).transpose()
+            result: Matrix = self.sources.mul(self.mixing.transpose())
+            # Only whitening centers the data
+            return self.center.inverse_transform(result) if self.whiten else result
         else:
             raise MatrixAlgorithmsError('FastICA has not yet been initialized!')
 
-- 
2.43.0


From eb3c2e71cebc972b2a75ae44187ef5a6ce1ce636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:27 +0000
Subject: [PATCH 22/52] fix: FastICA does not overwrite its num_components
 option with the limit of one data set

---
 src/wai/ma/algorithm/ica/_FastICA.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/wai/ma/algorithm/ica/_FastICA.py b/src/wai/ma/algorithm/ica/_FastICA.py
index d57345a..0fe9f9f 100644
--- a/src/wai/ma/algorithm/ica/_FastICA.py
+++ b/src/wai/ma/algorithm/ica/_FastICA.py
@@ -84,14 +84,15 @@ class FastICA(AbstractAlgorithm, Filter):
         X1: Optional[Matrix] = None
 
         min_NP: int = min(n, p)
+        num_components: int = self.num_components
 
         if not self.whiten:
-            self.num_components = min_NP
+            num_components = min_NP
             self.logger.warning('Ignoring num_components when $whiten=False')
 
-        if self.num_components > min_NP:
+        if num_components > min_NP:
             self.logger.warning('num_components is too large and will be set to ' + str(min_NP))
-            self.num_components = min_NP
+            num_components = min_NP
 
         # Whiten data
         if self.whiten:
@@ -102,7 +103,7 @@ class FastICA(AbstractAlgorithm, Filter):
             d = d.get_rows((0, k))  # Only get non-zero singular values
             d_inv_elements: Matrix = d.apply_elementwise(lambda a: 1.0 / a)
             tmp: Matrix = U.scale_by_row_vector(d_inv_elements).transpose()
-            self.whitening = tmp.get_rows((0, min(tmp.num_rows(), self.num_components)))
+            self.whitening = tmp.get_rows((0, min(tmp.num_rows(), num_components)))
 
             X1 = self.whitening.mul(X)
             X1 = X1.mul(sqrt(p))
@@ -110,7 +111,7 @@ class FastICA(AbstractAlgorithm, Filter):
             X1 = X
 
         # Randomly initialise weights from normal dist
-        W_init: Matrix = randn(self.num_components, self.num_components, 1)
+        W_init: Matrix = randn(num_components, num_components, 1)
 
         # Use deflation algorithm
         if self.algorithm is Algorithm.DEFLATION:
@@ -136,9 +137,9 @@ class FastICA(AbstractAlgorithm, Filter):
         :param X:       Input.
         :return:        Weights
         """
-        W: Matrix = zeros(self.num_components, self.num_components)
+        W: Matrix = zeros(W_init.num_rows(), W_init.num_columns())
 
-        for j in range(self.num_components):
+        for j in range(W_init.num_rows()):
             w: Matrix = W_init.get_row(j).transpose().copy()
             w = w.div(w.pow_elementwise(2).sum(-1).sqrt().as_real())
             for i in range(self.max_iter):
-- 
2.43.0


From 2f39d06e56c01ca589830e078ff010c12f370a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:45 +0000
Subject: [PATCH 23/52] fix: CCAFilter centers with the means of the data it is
 trained on

---
 src/wai/ma/algorithm/_CCAFilter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wai/ma/algorithm/_CCAFilter.py b/src/wai/ma/algorithm/_CCAFilter.py
index 9885a07..20c4ca1 100644
--- a/src/wai/ma/algorithm/_CCAFilter.py
+++ b/src/wai/ma/algorithm/_CCAFilter.py
@@ -52,6 +52,8 @@ class CCAFilter(AbstractAlgorithm, SupervisedFilter):
         super().reset()
         self.proj_X = None
         self.proj_Y = None
+        self.center_X = Center()
+        self.center_Y = Center()
 
     def initialize(self, x: Optional[Matrix] = None, y: Optional[Matrix] = None) -> Optional[str]:
         if x is None or y is None:
-- 
2.43.0


From 6e6b6c69732c1a4466fec8b0ae56a15eef690bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:48 +0000
Subject: [PATCH 24/52] fix: CCAFilter takes the right singular vectors as
 columns (svd_V returns them as rows)

---
 src/wai/ma/algorithm/_CCAFilter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/algorithm/_CCAFilter.py b/src/wai/ma/algorithm/_CCAFilter.py
index 20c4ca1..36055bd 100644
--- a/src/wai/ma/algorithm/_CCAFilter.py
+++ b/src/wai/ma/algorithm/_CCAFilter.py
@@ -108,7 +108,7 @@ class CCAFilter(AbstractAlgorithm, SupervisedFilter):
         omega: Matrix = Cxx_inv_sqrt.mul(Cxy).mul(Cyy_inv_sqrt)
 
         U: Matrix = omega.svd_U().normalized(0)
-        V: Matrix = omega.svd_V().normalized(0)
+        V: Matrix = omega.svd_V().transpose().normalized(0)
 
         C: Matrix = U.get_sub_matrix((0, U.num_rows()), (0, self.kcca))
         D: Matrix = V.get_sub_matrix((0, V.num_rows()), (0, self.kcca))
-- 
2.43.0


From 64a7272344303c274194fa1a16f78fb1a0cbe183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:52 +0000
Subject: [PATCH 25/52] fix: PRM replaces wide data by V*S (svd_V returns the
 right singular vectors as rows)

---
 src/wai/ma/algorithm/pls/_PRM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/algorithm/pls/_PRM.py b/src/wai/ma/algorithm/pls/_PRM.py
index 073b0a4..a191a21 100644
--- a/src/wai/ma/algorithm/pls/_PRM.py
+++ b/src/wai/ma/algorithm/pls/_PRM.py
@@ -219,7 +219,7 @@ class PRM(AbstractSingleResponsePLS):
         if has_more_columns_than_rows:
             X_t: Matrix = X.transpose()
             U = X_t.svd_U()
-            V: Matrix = X_t.svd_V()
+            V: Matrix = X_t.svd_V().transpose()
             S: Matrix = X_t.svd_S()
 
             # Replace X with n x n matrix
-- 
2.43.0


From a86cc65f1dadceabdc500f3a7e3cd96090d8ccc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:55 +0000
Subject: [PATCH 26/52] fix: EPO and YGradientEPO handle data with fewer
 columns than N

---
 src/wai/ma/algorithm/glsw/_EPO.py          | 2 +-
 src/wai/ma/algorithm/glsw/_YGradientEPO.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wai/ma/algorithm/glsw/_EPO.py b/src/wai/ma/algorithm/glsw/_EPO.py
index cf43ccf..1b516dc 100644
--- a/src/wai/ma/algorithm/glsw/_EPO.py
+++ b/src/wai/ma/algorithm/glsw/_EPO.py
@@ -42,7 +42,7 @@ class EPO(GLSW):
         :param C:   Covariance matrix.
         :return:    Identity matrix.
         """
-        return factory.eye(self.N)
+        return factory.eye(min(C.num_columns(), self.N))
 
     def get_eigenvector_matrix(self, C: Matrix) -> Matrix:
         """
diff --git a/src/wai/ma/algorithm/glsw/_YGradientEPO.py b/src/wai/ma/algorithm/glsw/_YGradientEPO.py
index d4fb4f5..ee63b44 100644
--- a/src/wai/ma/algorithm/glsw/_YGradientEPO.py
+++ b/src/wai/ma/algorithm/glsw/_YGradientEPO.py
@@ -54,7 +54,7 @@ class YGradientEPO(YGradientGLSW):
         :param C:   Covariance matrix.
         :return:    Identity matrix.
         """
-        return factory.eye(self.N)
+        return factory.eye(min(C.num_columns(), self.N))
 
     def get_eigenvector_matrix(self, C: Matrix) -> Matrix:
         """
-- 
2.43.0


From a2a2a37ccc2f2ba84e35a9dc907a537cd3ac7290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:12 +0000
Subject: [PATCH 27/52] fix: PRM.transform maps wide data the way training did

---
 src/wai/ma/algorithm/pls/_PRM.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/wai/ma/algorithm/pls/_PRM.py b/src/wai/ma/algorithm/pls/_PRM.py
index a191a21..b313539 100644
--- a/src/wai/ma/algorithm/pls/_PRM.py
+++ b/src/wai/ma/algorithm/pls/_PRM.py
@@ -50,6 +50,7 @@ class PRM(AbstractSingleResponsePLS):
         self.num_SIMPLS_coefficients: int = 0  # The number of SIMPLS coefficients in W to keep (0 keep all)
         self.final_regression_coefficients: Optional[Matrix] = None  # Final regression coefficients
         self.simpls: Optional[SIMPLS] = None  # SIMPLS algorithm
+        self.U: Optional[Matrix] = None  # Maps wide data to the columns SIMPLS was trained on
 
     @staticmethod
     def validate_num_SIMPLS_coefficients(value: int) -> bool:
@@ -75,6 +76,7 @@ class PRM(AbstractSingleResponsePLS):
         self.gamma = None
         self.T = None
         self.simpls = None
+        self.U = None
 
     def initialize(self, predictors: Optional[Matrix] = None, response: Optional[Matrix] = None) -> Optional[str]:
         if predictors is None and response is None:
@@ -266,6 +268,7 @@ class PRM(AbstractSingleResponsePLS):
         # If X has been replaced by US, the regression coefficients need to be
         # back-transformed into beta_hat = U*beta_p
         if has_more_columns_than_rows:
+            self.U = U
             self.final_regression_coefficients = U.mul(self.final_regression_coefficients)
 
         return None
@@ -274,6 +277,8 @@ class PRM(AbstractSingleResponsePLS):
         return True
 
     def do_transform(self, predictors: Matrix) -> Matrix:
+        if self.U is not None:
+            predictors = predictors.mul(self.U)
         return predictors.mul(self.simpls.get_matrix('W'))
 
     def do_perform_predictions(self, predictors: Matrix) -> Matrix:
-- 
2.43.0


From 21f9d9b61d63e30d7cf1fde56f0563655396b79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:28 +0000
Subject: [PATCH 28/52] fix: a real eigenvalue decomposition yields real
 matrices with recent numpy versions

---
 src/wai/ma/core/matrix/_Matrix.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/wai/ma/core/matrix/_Matrix.py b/src/wai/ma/core/matrix/_Matrix.py
index b49e5fe..96f91db 100644
--- a/src/wai/ma/core/matrix/_Matrix.py
+++ b/src/wai/ma/core/matrix/_Matrix.py
@@ -118,6 +118,9 @@ class Matrix(Serialisable):
         """
         if self.eigenvalue_decomposition is None:
             eigenvalues, eigenvectors = np.linalg.eig(self.data)
+            # Recent numpy versions return complex arrays even if the decomposition is real
+            if np.isrealobj(self.data) and not eigenvalues.imag.any():
+                eigenvalues, eigenvectors = eigenvalues.real, eigenvectors.real
             self.eigenvalue_decomposition = (Matrix(eigenvalues).transpose(), Matrix(eigenvectors))
 
     def make_qr_decomposition(self):
-- 
2.43.0


From e05e9e5a719b2676c222369609672ae584983d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:19 +0000
Subject: [PATCH 29/52] fix: EPO and YGradientEPO project onto orthonormal
 eigenvectors for rank-deficient differences

---
 src/wai/ma/algorithm/glsw/_EPO.py          | 5 +++--
 src/wai/ma/algorithm/glsw/_YGradientEPO.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/wai/ma/algorithm/glsw/_EPO.py b/src/wai/ma/algorithm/glsw/_EPO.py
index 1b516dc..40721b4 100644
--- a/src/wai/ma/algorithm/glsw/_EPO.py
+++ b/src/wai/ma/algorithm/glsw/_EPO.py
@@ -51,7 +51,8 @@ class EPO(GLSW):
         :param C:   Covariance matrix.
         :return:    Matrix with first N eigenvectors.
         """
-        sort_dominance: bool = True
-        V: Matrix = C.get_eigenvectors(sort_dominance)
+        # For covariance matrices, the left singular vectors are the eigenvectors sorted by
+        # dominance, and stay orthonormal if eigenvalues coincide (e.g. more columns than rows)
+        V: Matrix = C.svd_U()
         V = V.get_sub_matrix((0, V.num_rows()), (0, min(V.num_columns(), self.N)))
         return V
diff --git a/src/wai/ma/algorithm/glsw/_YGradientEPO.py b/src/wai/ma/algorithm/glsw/_YGradientEPO.py
index ee63b44..2a925ee 100644
--- a/src/wai/ma/algorithm/glsw/_YGradientEPO.py
+++ b/src/wai/ma/algorithm/glsw/_YGradientEPO.py
@@ -63,7 +63,8 @@ class YGradientEPO(YGradientGLSW):
         :param C:   Covariance matrix.
         :return:    Matrix with first N eigenvectors.
         """
-        sort_dominance: bool = True
-        V: Matrix = C.get_eigenvectors(sort_dominance)
+        # For covariance matrices, the left singular vectors are the eigenvectors sorted by
+        # dominance, and stay orthonormal if eigenvalues coincide (e.g. more columns than rows)
+        V: Matrix = C.svd_U()
         V = V.get_sub_matrix((0, V.num_rows()), (0, min(V.num_columns(), self.N)))
         return V
-- 
2.43.0


From 3e37a68e0a06aa3481443ec72a3a38fe0528cc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:23 +0000
Subject: [PATCH 30/52] fix: CCAFilter computes A^(-1/2) from orthonormal
 vectors also for wide data

---
 src/wai/ma/algorithm/_CCAFilter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/wai/ma/algorithm/_CCAFilter.py b/src/wai/ma/algorithm/_CCAFilter.py
index 36055bd..4458967 100644
--- a/src/wai/ma/algorithm/_CCAFilter.py
+++ b/src/wai/ma/algorithm/_CCAFilter.py
@@ -126,8 +126,10 @@ class CCAFilter(AbstractAlgorithm, SupervisedFilter):
         :param A:   Input matrix.
         :return:    A^(-1/2).
         """
-        eig_vals_desc: Matrix = A.get_eigenvalues_sorted_descending()
-        eig_vecs_desc: Matrix = A.get_eigenvectors(True)
+        # For symmetric positive definite matrices, singular values/vectors are eigenvalues/vectors,
+        # and the vectors stay orthonormal if eigenvalues coincide (e.g. more columns than rows)
+        eig_vals_desc: Matrix = A.get_singular_values()
+        eig_vecs_desc: Matrix = A.svd_U()
         diag: Matrix = factory.diag(eig_vals_desc)
         d_sqrt_inv: Matrix = diag.sqrt().inverse()
         A_pow_half: Matrix = eig_vecs_desc.mul(d_sqrt_inv).mul(eig_vecs_desc.transpose())
-- 
2.43.0


From 62c3206ef81be7c33437f1484b49ecd7a48ec1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:50 +0000
Subject: [PATCH 31/52] fix: PCA loadings have one row per input column, zero
 for dropped constant columns

---
 src/wai/ma/algorithm/_PCA.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/wai/ma/algorithm/_PCA.py b/src/wai/ma/algorithm/_PCA.py
index 6b92331..6c6c34f 100644
--- a/src/wai/ma/algorithm/_PCA.py
+++ b/src/wai/ma/algorithm/_PCA.py
@@ -38,6 +38,7 @@ class PCA(AbstractAlgorithm, Filter):
         self.sum_of_eigenvalues: real = real(0)
         self.num_cols: int = 0
         self.num_rows: int = 0
+        self.num_input_cols: int = 0
         self.keep_cols: List[int] = []
         self.train: Optional[Matrix] = None
         self.transformation: Optional[AbstractTransformation] = None
@@ -109,6 +110,7 @@ class PCA(AbstractAlgorithm, Filter):
         :param instances:   The data to process.
         """
         self.train = instances.copy()
+        self.num_input_cols = instances.num_columns()
 
         # Delete any attributes with only one distinct value or are all missing
         self.keep_cols = []
@@ -234,15 +236,15 @@ class PCA(AbstractAlgorithm, Filter):
         :return:    Matrix containing the components.
         """
         coeff = self.get_coefficients()
-        result = factory.zeros(self.num_cols, len(coeff) + 1)
+        result = factory.zeros(self.num_input_cols, len(coeff) + 1)
 
         # Add the index column
-        for n in range(self.num_cols):
+        for n in range(self.num_input_cols):
             result.set(n, result.num_columns() - 1, n + 1)
 
         # Each list is a single column
         for i in range(len(coeff)):
-            for n in range(self.num_cols):
+            for n in range(self.num_input_cols):
                 # Column was kept earlier
                 value = real(0)
                 if n in self.keep_cols:
-- 
2.43.0


From 91455dde1e899982e9e76355ac7e855ed7cf8585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:53 +0000
Subject: [PATCH 32/52] fix: OPLS reports the failure of its base PLS to train

---
 src/wai/ma/algorithm/pls/_OPLS.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/wai/ma/algorithm/pls/_OPLS.py b/src/wai/ma/algorithm/pls/_OPLS.py
index f7f5ab9..16b3aec 100644
--- a/src/wai/ma/algorithm/pls/_OPLS.py
+++ b/src/wai/ma/algorithm/pls/_OPLS.py
@@ -147,9 +147,7 @@ class OPLS(AbstractSingleResponsePLS):
             self.P_orth.set_column(current_component, p_orth)
 
         self.X_osc = X.copy()
-        self.base_PLS.initialize(self.do_transform(predictors), response)
-
-        return None
+        return self.base_PLS.initialize(self.do_transform(predictors), response)
 
     def inv_L2_squared(self, v: Matrix) -> real:
         """
-- 
2.43.0


From 842b487b5520d955c5627014bb2d646a0ea70b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:12 +0000
Subject: [PATCH 33/52] fix: semi-supervised DIPLS takes all labeled samples,
 also if the domains differ in size

---
 src/wai/ma/algorithm/pls/_DIPLS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/algorithm/pls/_DIPLS.py b/src/wai/ma/algorithm/pls/_DIPLS.py
index e301149..6af5665 100644
--- a/src/wai/ma/algorithm/pls/_DIPLS.py
+++ b/src/wai/ma/algorithm/pls/_DIPLS.py
@@ -140,7 +140,7 @@ class DIPLS(AbstractSingleResponsePLS):
                 X_s: Matrix = predictors.get_rows((0, self.ns))
                 X_t: Matrix = predictors.get_rows((self.ns, predictors.num_rows()))
 
-                X: Matrix = predictors.get_rows((0, 2 * self.ns))
+                X: Matrix = predictors.get_rows((0, self.ns + self.nt))
                 y = response
                 break_()
 
-- 
2.43.0


From 23239c25262c368964e2e9a1cccc7e24df89e769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:35 +0000
Subject: [PATCH 34/52] fix: the default gamma of PolyKernel/RBFKernel follows
 the data instead of the first data seen

---
 src/wai/ma/transformation/kernel/_PolyKernel.py | 12 ++++++------
 src/wai/ma/transformation/kernel/_RBFKernel.py  |  9 +++++----
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/wai/ma/transformation/kernel/_PolyKernel.py b/src/wai/ma/transformation/kernel/_PolyKernel.py
index be5ac88..90a1361 100644
--- a/src/wai/ma/transformation/kernel/_PolyKernel.py
+++ b/src/wai/ma/transformation/kernel/_PolyKernel.py
@@ -15,6 +15,8 @@
 #  along with this program.  If not, see <http://www.gnu.org/licenses/>.
 from typing import Optional
 
+import numpy as np
+
 from ...core import ZERO, real, NAN, ONE
 from ...core.matrix import Matrix
 from ._AbstractKernel import AbstractKernel
@@ -40,19 +42,17 @@ class PolyKernel(AbstractKernel):
     def apply_matrix(self, X: Matrix, Y: Optional[Matrix] = None) -> Matrix:
         if Y is None:
             Y = X
-        if self.gamma is NAN:
-            self.gamma = ONE / X.num_columns()
+        gamma: real = ONE / X.num_columns() if np.isnan(self.gamma) else self.gamma
         result: Matrix = X.mul(Y.transpose())
-        result = result.mul(self.gamma)
+        result = result.mul(gamma)
         result = result.add(self.coef_0)
         result = result.pow_elementwise(self.degree)
         return result
 
     def apply_vector(self, x: Matrix, y: Matrix) -> real:
         linear_term: real = x.vector_dot(y)
-        if self.gamma is NAN:
-            self.gamma = ONE / x.num_columns()
-        return pow(self.gamma * linear_term + self.coef_0, self.degree)
+        gamma: real = ONE / x.num_columns() if np.isnan(self.gamma) else self.gamma
+        return pow(gamma * linear_term + self.coef_0, self.degree)
 
     def __str__(self):
         return 'Polynomial Kernel: K(x,y)=(gamma*x^T*y + coef_0)^d, ' +\
diff --git a/src/wai/ma/transformation/kernel/_RBFKernel.py b/src/wai/ma/transformation/kernel/_RBFKernel.py
index a7d30ba..8901443 100644
--- a/src/wai/ma/transformation/kernel/_RBFKernel.py
+++ b/src/wai/ma/transformation/kernel/_RBFKernel.py
@@ -13,7 +13,9 @@
 #
 #  You should have received a copy of the GNU General Public License
 #  along with this program.  If not, see <http://www.gnu.org/licenses/>.
-from ...core import ONE, real, NAN
+import numpy as np
+
+from ...core import ONE, real
 from ...core.matrix import Matrix
 from ...core.utils import exp
 from ._AbstractKernel import AbstractKernel
@@ -33,9 +35,8 @@ class RBFKernel(AbstractKernel):
 
     def apply_vector(self, x: Matrix, y: Matrix) -> real:
         norm_2: real = x.sub(y).norm2()
-        if self.gamma is NAN:
-            self.gamma = ONE / x.num_columns()
-        return exp(-ONE * self.gamma * norm_2)
+        gamma: real = ONE / x.num_columns() if np.isnan(self.gamma) else self.gamma
+        return exp(-ONE * gamma * norm_2)
 
     def __str__(self):
         return 'RBF Kernel: K(x,y) = exp(-1*gamma*||x - y||^2), gamma=' + str(self.gamma)
-- 
2.43.0


From 13c6e55791d81950c259aa7d6b0db1b20b6d8e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:01 +0000
Subject: [PATCH 35/52] fix: FFT.inverse_transform returns real samples

---
 src/wai/ma/transformation/_FFT.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wai/ma/transformation/_FFT.py b/src/wai/ma/transformation/_FFT.py
index b709d14..66f6f1a 100644
--- a/src/wai/ma/transformation/_FFT.py
+++ b/src/wai/ma/transformation/_FFT.py
@@ -75,7 +75,8 @@ class FFT(AbstractTransformation):
 
         samples: np.ndarray = self.ifft(fourier)
 
-        return Matrix(samples)
+        # The samples are real, only rounding errors remain in the imaginary part
+        return Matrix(np.real(samples))
 
     def fft(self, array: np.ndarray) -> np.ndarray:
         """
-- 
2.43.0


From e69b61bf8a8ac31bec2e85e1c4e7989f08766a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:04 +0000
Subject: [PATCH 36/52] fix: Log serialises base and offset as floating point
 numbers, also if they were given as int

---
 src/wai/ma/transformation/_Log.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wai/ma/transformation/_Log.py b/src/wai/ma/transformation/_Log.py
index 913b018..4990b76 100644
--- a/src/wai/ma/transformation/_Log.py
+++ b/src/wai/ma/transformation/_Log.py
@@ -86,6 +86,6 @@ class Log(AbstractTransformation, Serialisable):
 
     def serialise_state(self, stream: IO[bytes]):
         # Serialise out our base, base-conversion factor and offset
-        stream.write(self.serialise_to_bytes(self.base))
+        stream.write(self.serialise_to_bytes(float(self.base)))
         stream.write(self.serialise_to_bytes(self._base_conversion_factor()))
-        stream.write(self.serialise_to_bytes(self.offset))
+        stream.write(self.serialise_to_bytes(float(self.offset)))
-- 
2.43.0


From df4d652dcf740ff9e2f1f1fe3b8a64c8bc9e9a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:07 +0000
Subject: [PATCH 37/52] fix: changing any option of RobustScaler,
 PowerTransformer and QuantileTransformer reconfigures them

---
 src/wai/ma/transformation/_PowerTransformer.py   |  4 ++++
 .../ma/transformation/_QuantileTransformer.py    | 16 ++++++++++++++++
 src/wai/ma/transformation/_RobustScaler.py       |  8 ++++++++
 3 files changed, 28 insertions(+)

diff --git a/src/wai/ma/transformation/_PowerTransformer.py b/src/wai/ma/transformation/_PowerTransformer.py
index ccdd96f..924b493 100644
--- a/src/wai/ma/transformation/_PowerTransformer.py
+++ b/src/wai/ma/transformation/_PowerTransformer.py
@@ -50,6 +50,10 @@ class PowerTransformer(AbstractTransformation):
             raise ValueError(f"Method was {method} but must be one of: " +
                              ", ".join(PowerTransformer.METHODS))
 
+    def validate_standardise(self, value):
+        # Any value is acceptable
+        pass
+
     def reset(self):
         super().reset()
         self._intern = None
diff --git a/src/wai/ma/transformation/_QuantileTransformer.py b/src/wai/ma/transformation/_QuantileTransformer.py
index b161ad4..12e4bcb 100644
--- a/src/wai/ma/transformation/_QuantileTransformer.py
+++ b/src/wai/ma/transformation/_QuantileTransformer.py
@@ -53,6 +53,22 @@ class QuantileTransformer(AbstractTransformation):
             raise ValueError(f"Output distribution was {selection} but must be one of: " +
                              ", ".join(QuantileTransformer.OUTPUT_DISTRIBUTIONS))
 
+    def validate_n_quantiles(self, value):
+        # Any value is acceptable
+        pass
+
+    def validate_ignore_implicit_zeroes(self, value):
+        # Any value is acceptable
+        pass
+
+    def validate_subsample(self, value):
+        # Any value is acceptable
+        pass
+
+    def validate_random_state(self, value):
+        # Any value is acceptable
+        pass
+
     def reset(self):
         super().reset()
         self._intern = None
diff --git a/src/wai/ma/transformation/_RobustScaler.py b/src/wai/ma/transformation/_RobustScaler.py
index 884dbb8..0c786ab 100644
--- a/src/wai/ma/transformation/_RobustScaler.py
+++ b/src/wai/ma/transformation/_RobustScaler.py
@@ -51,6 +51,14 @@ class RobustScaler(AbstractTransformation):
             raise ValueError(f"Quantile range must be 0.0 < q_min < q_max < 100.0. "
                              f"Got q_min={selection[0]}, q_max={selection[1]}")
 
+    def validate_with_centering(self, value):
+        # Any value is acceptable
+        pass
+
+    def validate_with_scaling(self, value):
+        # Any value is acceptable
+        pass
+
     def reset(self):
         super().reset()
         self._intern = None
-- 
2.43.0


From 1e0f7a2723d659bd266a13dc6dcd0e7bd6de4e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:11 +0000
Subject: [PATCH 38/52] fix: changing norm_Y_weights or deflation_mode
 invalidates a trained NIPALS model

---
 src/wai/ma/algorithm/pls/_NIPALS.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/wai/ma/algorithm/pls/_NIPALS.py b/src/wai/ma/algorithm/pls/_NIPALS.py
index 05cb669..81ef85a 100644
--- a/src/wai/ma/algorithm/pls/_NIPALS.py
+++ b/src/wai/ma/algorithm/pls/_NIPALS.py
@@ -76,6 +76,14 @@ class NIPALS(AbstractMultiResponsePLS):
     def validate_tol(value: real) -> bool:
         return value >= ZERO
 
+    @staticmethod
+    def validate_norm_Y_weights(value: bool) -> bool:
+        return True
+
+    @staticmethod
+    def validate_deflation_mode(value: 'DeflationMode') -> bool:
+        return True
+
     def get_min_columns_response(self) -> int:
         return 1
 
-- 
2.43.0


From 73c30f0a5251631f01bba960b0b5cfa7b9fc3274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:15 +0000
Subject: [PATCH 39/52] fix: training with one matrix missing returns the error
 message of check()

---
 src/wai/ma/algorithm/_CCAFilter.py       | 6 +++---
 src/wai/ma/algorithm/glsw/_GLSW.py       | 4 ++--
 src/wai/ma/algorithm/pls/_AbstractPLS.py | 4 ++--
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/wai/ma/algorithm/_CCAFilter.py b/src/wai/ma/algorithm/_CCAFilter.py
index 4458967..2bdd6f8 100644
--- a/src/wai/ma/algorithm/_CCAFilter.py
+++ b/src/wai/ma/algorithm/_CCAFilter.py
@@ -56,7 +56,7 @@ class CCAFilter(AbstractAlgorithm, SupervisedFilter):
         self.center_Y = Center()
 
     def initialize(self, x: Optional[Matrix] = None, y: Optional[Matrix] = None) -> Optional[str]:
-        if x is None or y is None:
+        if x is None and y is None:
             super().initialize()
             self.kcca = 1
             self.lambda_X = real(1e-2)
@@ -64,8 +64,8 @@ class CCAFilter(AbstractAlgorithm, SupervisedFilter):
             self.center_X = Center()
             self.center_Y = Center()
         else:
-            x = x.copy()
-            y = y.copy()
+            x = x.copy() if x is not None else None
+            y = y.copy() if y is not None else None
 
             self.reset()
 
diff --git a/src/wai/ma/algorithm/glsw/_GLSW.py b/src/wai/ma/algorithm/glsw/_GLSW.py
index 707e7e3..3e2a695 100644
--- a/src/wai/ma/algorithm/glsw/_GLSW.py
+++ b/src/wai/ma/algorithm/glsw/_GLSW.py
@@ -41,8 +41,8 @@ class GLSW(AbstractAlgorithm, SupervisedFilter):
             self.alpha = 1e-3
         else:
             # Always work on copies
-            x1 = x1.copy()
-            x2 = x2.copy()
+            x1 = x1.copy() if x1 is not None else None
+            x2 = x2.copy() if x2 is not None else None
 
             self.reset()
 
diff --git a/src/wai/ma/algorithm/pls/_AbstractPLS.py b/src/wai/ma/algorithm/pls/_AbstractPLS.py
index ebe311f..3ea86f1 100644
--- a/src/wai/ma/algorithm/pls/_AbstractPLS.py
+++ b/src/wai/ma/algorithm/pls/_AbstractPLS.py
@@ -45,8 +45,8 @@ class AbstractPLS(AbstractAlgorithm, SupervisedFilter):
             :return:            None if successful, otherwise error message.
             """
             # Always work on copies
-            predictors = predictors.copy()
-            response = response.copy()
+            predictors = predictors.copy() if predictors is not None else None
+            response = response.copy() if response is not None else None
 
             self.reset()
 
-- 
2.43.0


From f0aecac0c9ae4a14bf70308e48cf6ef835eb5890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:14 +0000
Subject: [PATCH 40/52] fix: constant columns and rows whose standard deviation
 is only rounding error are not blown up by Standardize and RowNorm

---
 src/wai/ma/transformation/_RowNorm.py     | 7 +++++--
 src/wai/ma/transformation/_Standardize.py | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/wai/ma/transformation/_RowNorm.py b/src/wai/ma/transformation/_RowNorm.py
index b7b86b5..51d7f5d 100644
--- a/src/wai/ma/transformation/_RowNorm.py
+++ b/src/wai/ma/transformation/_RowNorm.py
@@ -16,6 +16,8 @@
 
 from typing import Optional
 
+import numpy as np
+
 from ..core import real
 from ..core.matrix import Matrix
 from ..core.matrix.helper import row_means, row_stdevs
@@ -36,9 +38,10 @@ class RowNorm(AbstractTransformation):
     def configure(self, data: Matrix):
         self.means = row_means(data)
         self.std_devs = row_stdevs(data)
-        # Make sure we don't do a divide by zero
+        # Make sure we don't do a divide by zero (or by the rounding error in
+        # the standard deviation of a constant row)
         for i in range(self.std_devs.num_rows()):
-            if self.std_devs.get(i, 0) == real(0):
+            if self.std_devs.get(i, 0) <= 10 * np.finfo(real).eps * abs(self.means.get(i, 0)):
                 self.std_devs.set(i, 0, 1)
 
     def do_transform(self, data: Matrix) -> Matrix:
diff --git a/src/wai/ma/transformation/_Standardize.py b/src/wai/ma/transformation/_Standardize.py
index acf672d..909c4df 100644
--- a/src/wai/ma/transformation/_Standardize.py
+++ b/src/wai/ma/transformation/_Standardize.py
@@ -16,6 +16,8 @@
 
 from typing import Optional, IO
 
+import numpy as np
+
 from ..core import real, Serialisable
 from ..core.matrix import Matrix
 from ..core.matrix.helper import column_stdevs, column_means
@@ -36,9 +38,10 @@ class Standardize(AbstractTransformation, Serialisable):
     def configure(self, data: Matrix):
         self.means = column_means(data)
         self.std_devs = column_stdevs(data)
-        # Make sure we don't do a divide by zero
+        # Make sure we don't do a divide by zero (or by the rounding error in
+        # the standard deviation of a constant column)
         for i in range(self.std_devs.num_columns()):
-            if self.std_devs.get(0, i) == real(0):
+            if self.std_devs.get(0, i) <= 10 * np.finfo(real).eps * abs(self.means.get(0, i)):
                 self.std_devs.set(0, i, 1)
         self.configured = True
 
-- 
2.43.0


From 52d48fad51003c929a49963456a8a657fab95e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:19 +0000
Subject: [PATCH 41/52] fix: the eigenvectors of a symmetric matrix are real
 and orthonormal even if eigenvalues coincide

---
 src/wai/ma/core/matrix/_Matrix.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/wai/ma/core/matrix/_Matrix.py b/src/wai/ma/core/matrix/_Matrix.py
index 96f91db..12e7ddf 100644
--- a/src/wai/ma/core/matrix/_Matrix.py
+++ b/src/wai/ma/core/matrix/_Matrix.py
@@ -118,6 +118,11 @@ class Matrix(Serialisable):
         """
         if self.eigenvalue_decomposition is None:
             eigenvalues, eigenvectors = np.linalg.eig(self.data)
+            # The general solver may yield complex or non-orthogonal eigenvectors if eigenvalues
+            # of a symmetric matrix (nearly) coincide
+            if np.isrealobj(self.data) and np.allclose(self.data, self.data.T, rtol=0, atol=1e-14 * np.abs(self.data).max())\
+                    and not np.allclose(eigenvectors.T.dot(eigenvectors), np.eye(len(eigenvalues))):
+                eigenvalues, eigenvectors = np.linalg.eigh(self.data)
             # Recent numpy versions return complex arrays even if the decomposition is real
             if np.isrealobj(self.data) and not eigenvalues.imag.any():
                 eigenvalues, eigenvectors = eigenvalues.real, eigenvectors.real
-- 
2.43.0


From 9f2d6d6de454f1c56e20e2f8f39805ffef1c7340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:04 +0000
Subject: [PATCH 42/52] fix: CCA weights ignore what rounding leaves of
 deflated directions

---
 src/wai/ma/algorithm/pls/_NIPALS.py | 9 +++++++--
 src/wai/ma/core/matrix/_Matrix.py   | 6 ++++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/wai/ma/algorithm/pls/_NIPALS.py b/src/wai/ma/algorithm/pls/_NIPALS.py
index 81ef85a..a0b929a 100644
--- a/src/wai/ma/algorithm/pls/_NIPALS.py
+++ b/src/wai/ma/algorithm/pls/_NIPALS.py
@@ -16,11 +16,16 @@
 from enum import Enum, auto
 from typing import Optional, List
 
+import numpy as np
+
 from ._AbstractMultiResponsePLS import AbstractMultiResponsePLS
 from ...core import ZERO, real, ONE
 from ...core.matrix import Matrix, factory
 from ...transformation import Standardize
 
+# Deflation leaves singular values that are zero up to accumulated rounding errors (same cut-off as sklearn)
+P_INV_RCOND: real = real(1e6 * np.finfo(real).eps)
+
 
 class NIPALS(AbstractMultiResponsePLS):
     """
@@ -189,7 +194,7 @@ class NIPALS(AbstractMultiResponsePLS):
             if self.get_weight_calculation_mode() is WeightCalculationMode.CCA:
                 if X_p_inv is None:
                     # sklearn uses pinv here which ojAlgo implicitly does
-                    X_p_inv = X.pseudo_inverse()
+                    X_p_inv = X.pseudo_inverse(P_INV_RCOND)
                 X_weight: Matrix = X_p_inv.mul(y_score)
             else:  # PLS
                 X_weight: Matrix = X.transpose().mul(y_score).div(y_score.norm2_squared())
@@ -208,7 +213,7 @@ class NIPALS(AbstractMultiResponsePLS):
             if self.get_weight_calculation_mode() is WeightCalculationMode.CCA:
                 if Y_p_inv is None:
                     # sklearn uses pinv here which ojAlgo implicitly does
-                    Y_p_inv = Y.pseudo_inverse()
+                    Y_p_inv = Y.pseudo_inverse(P_INV_RCOND)
                 Y_weight: Matrix = Y_p_inv.mul(X_score)
             else:  # PLS
                 # WeightCalculationMode A: Regress each Y column on xscore
diff --git a/src/wai/ma/core/matrix/_Matrix.py b/src/wai/ma/core/matrix/_Matrix.py
index 12e7ddf..497472c 100644
--- a/src/wai/ma/core/matrix/_Matrix.py
+++ b/src/wai/ma/core/matrix/_Matrix.py
@@ -619,9 +619,11 @@ class Matrix(Serialisable):
     def is_square(self):
         return self.num_rows() == self.num_columns()
 
-    def pseudo_inverse(self):
+    def pseudo_inverse(self, rcond: Optional[real] = None):
         # Singular values below working precision are zero (same cut-off as inverse())
-        return Matrix(np.linalg.pinv(self.data, rcond=max(self.data.shape) * np.finfo(real).eps))
+        if rcond is None:
+            rcond = max(self.data.shape) * np.finfo(real).eps
+        return Matrix(np.linalg.pinv(self.data, rcond=rcond))
 
     def serialise_state(self, stream: IO[bytes]):
         # Write the number of rows and columns
-- 
2.43.0


From 16b24ba59da296823d54547486690fae41cb518c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:20 +0000
Subject: [PATCH 43/52] fix: plain initialize of DIPLS is rejected also after a
 domain-wise training

---
 src/wai/ma/algorithm/pls/_DIPLS.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/wai/ma/algorithm/pls/_DIPLS.py b/src/wai/ma/algorithm/pls/_DIPLS.py
index 6af5665..244716f 100644
--- a/src/wai/ma/algorithm/pls/_DIPLS.py
+++ b/src/wai/ma/algorithm/pls/_DIPLS.py
@@ -234,6 +234,20 @@ class DIPLS(AbstractSingleResponsePLS):
         result: Matrix = regression.add(self.b_0)
         return result
 
+    def initialize_domains(self, X: Matrix, y: Matrix) -> Optional[str]:
+        """
+        Initialises with the current strategy and domain sizes, which apply to this data only.
+
+        :param X:   The predictors of all domains.
+        :param y:   The response of all labelled domains.
+        :return:    Result, None if no errors, else error string.
+        """
+        try:
+            return self.initialize(X, y)
+        finally:
+            self.ns = 0
+            self.nt = 0
+
     def initialize_unsupervised(self,
                                 predictors_source_domain: Matrix,
                                 predictors_target_domain: Matrix,
@@ -252,7 +266,7 @@ class DIPLS(AbstractSingleResponsePLS):
         X: Matrix = predictors_source_domain.concat_along_rows(predictors_target_domain)
         y: Matrix = response_source_domain
 
-        return self.initialize(X, y)
+        return self.initialize_domains(X, y)
 
     def initialize_supervised(self,
                               predictors_source_domain: Matrix,
@@ -274,7 +288,7 @@ class DIPLS(AbstractSingleResponsePLS):
         X: Matrix = predictors_source_domain.concat_along_rows(predictors_target_domain)
         y: Matrix = response_source_domain.concat_along_rows(response_target_domain)
 
-        return self.initialize(X, y)
+        return self.initialize_domains(X, y)
 
     def initialize_semisupervised(self,
                                   predictors_source_domain: Matrix,
@@ -300,7 +314,7 @@ class DIPLS(AbstractSingleResponsePLS):
                     .concat_along_rows(predictors_target_domain_unlabeled)
         y: Matrix = response_source_domain.concat_along_rows(response_target_domain)
 
-        return self.initialize(X, y)
+        return self.initialize_domains(X, y)
 
 
 class ModelAdaptionStrategy(Enum):
-- 
2.43.0


From 7e390b2364b211ddd3970a136618ae9f9de74a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:55 +0000
Subject: [PATCH 44/52] fix: the combined weights of an untrained PRM are not
 available instead of an error

---
 src/wai/ma/algorithm/pls/_PRM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/algorithm/pls/_PRM.py b/src/wai/ma/algorithm/pls/_PRM.py
index b313539..869b4d2 100644
--- a/src/wai/ma/algorithm/pls/_PRM.py
+++ b/src/wai/ma/algorithm/pls/_PRM.py
@@ -103,7 +103,7 @@ class PRM(AbstractSingleResponsePLS):
             if case('Wx'):
                 return self.W_x
             if case('W'):
-                return self.W_r.mul_elementwise(self.W_x)
+                return self.W_r.mul_elementwise(self.W_x) if self.W_r is not None else None
         return None
 
     def has_loadings(self) -> bool:
-- 
2.43.0


From 2875e56c87ef34956413a2fe4e5d8a828dfe7eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:58 +0000
Subject: [PATCH 45/52] fix: resetting SIMPLS clears the response loadings

---
 src/wai/ma/algorithm/pls/_SIMPLS.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wai/ma/algorithm/pls/_SIMPLS.py b/src/wai/ma/algorithm/pls/_SIMPLS.py
index 48e826c..7ccd264 100644
--- a/src/wai/ma/algorithm/pls/_SIMPLS.py
+++ b/src/wai/ma/algorithm/pls/_SIMPLS.py
@@ -46,6 +46,7 @@ class SIMPLS(AbstractSingleResponsePLS, Serialisable):
         super().reset()
         self.B = None
         self.W = None
+        self.Q = None
 
     @staticmethod
     def validate_num_coefficients(value: int) -> bool:
-- 
2.43.0


From 17f0befc31288ed5aa9574dc12d65be8ecd4b590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:50 +0000
Subject: [PATCH 46/52] fix: compute the powers of the Savitzky-Golay normal
 equations in floating point (integer powers overflow for wide windows and
 high orders)

---
 src/wai/ma/transformation/_SavitzkyGolay.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wai/ma/transformation/_SavitzkyGolay.py b/src/wai/ma/transformation/_SavitzkyGolay.py
index 01749ad..ddd4d0c 100644
--- a/src/wai/ma/transformation/_SavitzkyGolay.py
+++ b/src/wai/ma/transformation/_SavitzkyGolay.py
@@ -114,7 +114,7 @@ def determine_coefficients(num_left: int, num_right: int, poly_order: int, der_o
         for j in range(A_dim):
             sum = real(0)
             for k in range(-num_left, num_right + 1):
-                sum += np.power(k, i + j)
+                sum += np.power(real(k), i + j)
             A.set(i, j, sum)
 
     b = factory.zeros(A_dim, 1)
@@ -125,7 +125,7 @@ def determine_coefficients(num_left: int, num_right: int, poly_order: int, der_o
     for i in range(-num_left, num_right + 1):
         sum = real(0)
         for j in range(A_dim):
-            sum += solution.get(j, 0) * np.power(i, j)
+            sum += solution.get(j, 0) * np.power(real(i), j)
         result[i + num_left] = sum
 
     return result
-- 
2.43.0


From a39338da006ef254b2ee900970aa88eae2bf7f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:00 +0000
Subject: [PATCH 47/52] fix: the deviation of a long constant column or row is
 recognised as rounding error, which grows with its length

---
 src/wai/ma/transformation/_RowNorm.py     | 2 +-
 src/wai/ma/transformation/_Standardize.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wai/ma/transformation/_RowNorm.py b/src/wai/ma/transformation/_RowNorm.py
index 51d7f5d..e7dcb26 100644
--- a/src/wai/ma/transformation/_RowNorm.py
+++ b/src/wai/ma/transformation/_RowNorm.py
@@ -41,7 +41,7 @@ class RowNorm(AbstractTransformation):
         # Make sure we don't do a divide by zero (or by the rounding error in
         # the standard deviation of a constant row)
         for i in range(self.std_devs.num_rows()):
-            if self.std_devs.get(i, 0) <= 10 * np.finfo(real).eps * abs(self.means.get(i, 0)):
+            if self.std_devs.get(i, 0) <= max(10, data.num_columns()) * np.finfo(real).eps * abs(self.means.get(i, 0)):
                 self.std_devs.set(i, 0, 1)
 
     def do_transform(self, data: Matrix) -> Matrix:
diff --git a/src/wai/ma/transformation/_Standardize.py b/src/wai/ma/transformation/_Standardize.py
index 909c4df..8cf22b5 100644
--- a/src/wai/ma/transformation/_Standardize.py
+++ b/src/wai/ma/transformation/_Standardize.py
@@ -41,7 +41,7 @@ class Standardize(AbstractTransformation, Serialisable):
         # Make sure we don't do a divide by zero (or by the rounding error in
         # the standard deviation of a constant column)
         for i in range(self.std_devs.num_columns()):
-            if self.std_devs.get(0, i) <= 10 * np.finfo(real).eps * abs(self.means.get(0, i)):
+            if self.std_devs.get(0, i) <= max(10, data.num_rows()) * np.finfo(real).eps * abs(self.means.get(0, i)):
                 self.std_devs.set(0, i, 1)
         self.configured = True
 
-- 
2.43.0


From 10d238feaceb9c3bd29500cb1dcc65ca665883ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:11 +0000
Subject: [PATCH 48/52] fix: matrices with infinite elements equal their own
 copies

---
 src/wai/ma/core/matrix/_Matrix.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/wai/ma/core/matrix/_Matrix.py b/src/wai/ma/core/matrix/_Matrix.py
index 497472c..a8847d2 100644
--- a/src/wai/ma/core/matrix/_Matrix.py
+++ b/src/wai/ma/core/matrix/_Matrix.py
@@ -518,9 +518,7 @@ class Matrix(Serialisable):
         if not self.same_shape_as(other):
             return False
 
-        diff: Matrix = self.sub(other)
-
-        return not diff.data.any()
+        return bool((self.data == other.data).all())
 
     def __hash__(self):
         # TODO
-- 
2.43.0


From 5f2181fdabe5217f60d3b5c5e1144cf6967ced88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:15 +0000
Subject: [PATCH 49/52] fix: helper.equal does not take NaN or opposite
 infinities for equal elements

---
 src/wai/ma/core/matrix/helper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wai/ma/core/matrix/helper.py b/src/wai/ma/core/matrix/helper.py
index 85c0fc3..524b0f3 100644
--- a/src/wai/ma/core/matrix/helper.py
+++ b/src/wai/ma/core/matrix/helper.py
@@ -87,7 +87,8 @@ def equal(m1: Matrix, m2: Matrix, epsilon: real = real(0)) -> bool:
 
     for row in range(m1.num_rows()):
         for col in range(m1.num_columns()):
-            if np.abs(m1.get(row, col) - m2.get(row, col)) > epsilon:
+            v1, v2 = m1.get(row, col), m2.get(row, col)
+            if v1 != v2 and not np.abs(v1 - v2) <= epsilon:
                 return False
 
     return True
-- 
2.43.0


From 4bad521b8a6609e0f4de1463c432e53c3d382f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:43 +0000
Subject: [PATCH 50/52] fix: KernelPLS iterates with a tolerance of zero

---
 src/wai/ma/algorithm/pls/_KernelPLS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wai/ma/algorithm/pls/_KernelPLS.py b/src/wai/ma/algorithm/pls/_KernelPLS.py
index 31ba724..2714ae5 100644
--- a/src/wai/ma/algorithm/pls/_KernelPLS.py
+++ b/src/wai/ma/algorithm/pls/_KernelPLS.py
@@ -17,7 +17,7 @@ from typing import Optional, List
 
 from ...transformation.kernel import AbstractKernel, RBFKernel
 from ._AbstractMultiResponsePLS import AbstractMultiResponsePLS
-from ...core import real, ZERO, ONE
+from ...core import real, ZERO, ONE, INF
 from ...core.matrix import Matrix, factory
 from ...transformation import Center
 
@@ -107,7 +107,7 @@ class KernelPLS(AbstractMultiResponsePLS):
             iterations: int = 0
             u_old: Optional[Matrix] = None
             u: Matrix = factory.randn(num_rows, 1, KernelPLS.SEED + current_component)
-            iteration_change: real = real(self.tol * 10)
+            iteration_change: real = INF
 
             # Repeat 1) - 3) until convergence: either change of u is lower than self.tol or maximum
             # number of iterations has been reached (self.max_iter)
-- 
2.43.0


From 08b1e6cba14f64dc4843d2b8de579ae1b11fdaa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:22 +0000
Subject: [PATCH 51/52] fix: random matrices do not reseed numpy's global
 generator

---
 src/wai/ma/core/matrix/factory.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/wai/ma/core/matrix/factory.py b/src/wai/ma/core/matrix/factory.py
index 48960d5..2896860 100644
--- a/src/wai/ma/core/matrix/factory.py
+++ b/src/wai/ma/core/matrix/factory.py
@@ -148,8 +148,8 @@ def randn(rows: int, columns: int, seed: int = 1, mean: real = real(0), std: rea
     :param std:         The standard deviation of the normal distribution.
     :return:            The matrix.
     """
-    random.seed(seed)
-    data = random.rand(rows, columns)
+    generator = random.RandomState(seed)
+    data = generator.rand(rows, columns)
     np.multiply(data, std)
     np.add(data, mean)
     return Matrix(data)
@@ -178,8 +178,8 @@ def rand(rows: int, columns: int, seed: int = 1) -> Matrix:
     :param seed:        The seed value to initialise the PRNG with.
     :return:            The matrix.
     """
-    random.seed(seed)
-    return Matrix(random.rand(rows, columns))
+    generator = random.RandomState(seed)
+    return Matrix(generator.rand(rows, columns))
 
 
 def rand_like(other: Matrix, seed: int) -> Matrix:
-- 
2.43.0


From b231d469be86f67f712463497397c1acf4173895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:25 +0000
Subject: [PATCH 52/52] fix: NIPALS starts from the first response that varies

---
 src/wai/ma/algorithm/pls/_NIPALS.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/wai/ma/algorithm/pls/_NIPALS.py b/src/wai/ma/algorithm/pls/_NIPALS.py
index a0b929a..e3b37bf 100644
--- a/src/wai/ma/algorithm/pls/_NIPALS.py
+++ b/src/wai/ma/algorithm/pls/_NIPALS.py
@@ -180,7 +180,10 @@ class NIPALS(AbstractMultiResponsePLS):
         """
         iterations: int = 0
 
-        y_score: Matrix = Y.get_column(0)  # (y scores)
+        # Start from the first response that varies beyond rounding, the others have no covariance with X (y scores)
+        y_columns: List[Matrix] = [Y.get_column(i) for i in range(Y.num_columns())]
+        y_limit: real = np.sqrt(np.finfo(real).eps) * max(column.norm2() for column in y_columns)
+        y_score: Matrix = next((column for column in y_columns if column.norm2() > y_limit), y_columns[0])
         X_weight_old: Matrix = factory.zeros(X.num_columns(), 1)
         X_p_inv: Optional[Matrix] = None
         Y_p_inv: Optional[Matrix] = None
-- 
2.43.0

