From 9f843afa7c65a0af7c9aa6cfa36e631a3ffb3bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:10 +0000
Subject: [PATCH 01/36] fix: discard cached decompositions when a matrix is
 modified in place by a vector or on its diagonal

---
 src/wai/ma/core/matrix/_Matrix.py | 1 +
 src/wai/ma/core/matrix/helper.py  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/wai/ma/core/matrix/_Matrix.py b/src/wai/ma/core/matrix/_Matrix.py
index 11be11c..fa60751 100644
--- a/src/wai/ma/core/matrix/_Matrix.py
+++ b/src/wai/ma/core/matrix/_Matrix.py
@@ -550,6 +550,7 @@ class Matrix(Serialisable):
     def vector_op_modify(self, vector: 'Matrix', op: np.ufunc):
         must_be_vector(vector)
         self.ensure_vector_size_matches(vector)
+        self.reset_cache()
         op.at(self.data, ..., vector.data)
 
     def vector_size_matches(self, vector: 'Matrix') -> bool:
diff --git a/src/wai/ma/core/matrix/helper.py b/src/wai/ma/core/matrix/helper.py
index 695f151..e1c9383 100644
--- a/src/wai/ma/core/matrix/helper.py
+++ b/src/wai/ma/core/matrix/helper.py
@@ -222,6 +222,7 @@ def column_stdevs(mat: Matrix) -> Matrix:
 
 
 def fill_diagonal(mat: Matrix, value: Number):
+    mat.reset_cache()
     i = 0
     while i < mat.num_rows() and i < mat.num_columns():
         mat.data[i][i] = real(value)
-- 
2.43.0


From bcad696fc869b0c4d98ae55d31754cac9737fb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:13 +0000
Subject: [PATCH 02/36] fix: return a copy of the cached eigenvectors

---
 src/wai/ma/core/matrix/_Matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/core/matrix/_Matrix.py b/src/wai/ma/core/matrix/_Matrix.py
index fa60751..b569749 100644
--- a/src/wai/ma/core/matrix/_Matrix.py
+++ b/src/wai/ma/core/matrix/_Matrix.py
@@ -85,7 +85,7 @@ class Matrix(Serialisable):
 
     def get_eigenvalue_decomposition_V(self) -> 'Matrix':
         self.make_eigenvalue_decomposition()
-        return self.eigenvalue_decomposition[1]
+        return self.eigenvalue_decomposition[1].copy()
 
     def get_eigenvalue_decomposition_D(self) -> 'Matrix':
         self.make_eigenvalue_decomposition()
-- 
2.43.0


From 0d107297bdabea19e41c7bfe61eb7bd63f50fd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:17 +0000
Subject: [PATCH 03/36] fix: compute the decomposition before returning
 singular values

---
 src/wai/ma/core/matrix/_Matrix.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wai/ma/core/matrix/_Matrix.py b/src/wai/ma/core/matrix/_Matrix.py
index b569749..97d289c 100644
--- a/src/wai/ma/core/matrix/_Matrix.py
+++ b/src/wai/ma/core/matrix/_Matrix.py
@@ -141,6 +141,7 @@ class Matrix(Serialisable):
         return Matrix(np.array(raw, dtype=real))
 
     def get_singular_values(self) -> 'Matrix':
+        self.make_singular_value_decomposition()
         return self.singular_value_decomposition[1].transpose()
 
     def sum(self, axis: Optional[int] = None) -> Union['Matrix', real]:
-- 
2.43.0


From 2d43b9e4a1d29e44427566d3a55a3f7978b0b61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:21 +0000
Subject: [PATCH 04/36] fix: detect NaN elements by value

---
 src/wai/ma/core/matrix/_Matrix.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/wai/ma/core/matrix/_Matrix.py b/src/wai/ma/core/matrix/_Matrix.py
index 97d289c..81f0b0a 100644
--- a/src/wai/ma/core/matrix/_Matrix.py
+++ b/src/wai/ma/core/matrix/_Matrix.py
@@ -464,9 +464,8 @@ class Matrix(Serialisable):
         raise NotImplementedError
 
     def contains_NaN(self) -> bool:
-        NaN = real('NaN')
         def element_is_NaN(el):
-            return el == NaN
+            return np.isnan(el)
         return self.any(element_is_NaN)
 
     def any(self, function: Callable[[real], bool]) -> bool:
-- 
2.43.0


From 3e9c7f8ae493c899d43d444a6d4620da0d9108fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:25 +0000
Subject: [PATCH 05/36] fix: matrices of different shape compare as unequal

---
 src/wai/ma/core/matrix/_Matrix.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/wai/ma/core/matrix/_Matrix.py b/src/wai/ma/core/matrix/_Matrix.py
index 81f0b0a..37f61f0 100644
--- a/src/wai/ma/core/matrix/_Matrix.py
+++ b/src/wai/ma/core/matrix/_Matrix.py
@@ -509,6 +509,9 @@ class Matrix(Serialisable):
         if other is None or self.__class__ is not other.__class__:
             return False
 
+        if not self.same_shape_as(other):
+            return False
+
         diff: Matrix = self.sub(other)
 
         return not diff.data.any()
-- 
2.43.0


From 4048d282fdd2515628de66b5ba81e47d9887fee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:30 +0000
Subject: [PATCH 06/36] fix: forget the centering of earlier training data when
 the CCA filter is reset

---
 src/wai/ma/algorithm/_CCAFilter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wai/ma/algorithm/_CCAFilter.py b/src/wai/ma/algorithm/_CCAFilter.py
index 9885a07..20c4ca1 100644
--- a/src/wai/ma/algorithm/_CCAFilter.py
+++ b/src/wai/ma/algorithm/_CCAFilter.py
@@ -52,6 +52,8 @@ class CCAFilter(AbstractAlgorithm, SupervisedFilter):
         super().reset()
         self.proj_X = None
         self.proj_Y = None
+        self.center_X = Center()
+        self.center_Y = Center()
 
     def initialize(self, x: Optional[Matrix] = None, y: Optional[Matrix] = None) -> Optional[str]:
         if x is None or y is None:
-- 
2.43.0


From 7b3190520564cc173e57e30b494e3b69ef2fe593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:35 +0000
Subject: [PATCH 07/36] fix: forget the sources and centering of earlier data
 when FastICA is reset

---
 src/wai/ma/algorithm/ica/_FastICA.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wai/ma/algorithm/ica/_FastICA.py b/src/wai/ma/algorithm/ica/_FastICA.py
index e6107ee..d10ae59 100644
--- a/src/wai/ma/algorithm/ica/_FastICA.py
+++ b/src/wai/ma/algorithm/ica/_FastICA.py
@@ -71,8 +71,10 @@ class FastICA(AbstractAlgorithm, Filter):
     def reset(self):
         super().reset()
         self.components = None
+        self.sources = None
         self.mixing = None
         self.whitening = None
+        self.center = Center()
 
     def configure(self, X: Matrix):
         X = X.transpose()
-- 
2.43.0


From bbc65c62072bc34bd598d06f53cba76bb5e05ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:41 +0000
Subject: [PATCH 08/36] fix: clear all learned matrices when SIMPLS and OPLS
 are reset

---
 src/wai/ma/algorithm/pls/_OPLS.py   | 1 +
 src/wai/ma/algorithm/pls/_SIMPLS.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/wai/ma/algorithm/pls/_OPLS.py b/src/wai/ma/algorithm/pls/_OPLS.py
index 5237fc9..ab11baa 100644
--- a/src/wai/ma/algorithm/pls/_OPLS.py
+++ b/src/wai/ma/algorithm/pls/_OPLS.py
@@ -54,6 +54,7 @@ class OPLS(AbstractSingleResponsePLS):
         self.P_orth = None
         self.W_orth = None
         self.T_orth = None
+        self.X_osc = None
 
     def initialize(self, predictors: Optional[Matrix] = None, response: Optional[Matrix] = None) -> Optional[str]:
         if predictors is None and response is None:
diff --git a/src/wai/ma/algorithm/pls/_SIMPLS.py b/src/wai/ma/algorithm/pls/_SIMPLS.py
index 48e826c..7ccd264 100644
--- a/src/wai/ma/algorithm/pls/_SIMPLS.py
+++ b/src/wai/ma/algorithm/pls/_SIMPLS.py
@@ -46,6 +46,7 @@ class SIMPLS(AbstractSingleResponsePLS, Serialisable):
         super().reset()
         self.B = None
         self.W = None
+        self.Q = None
 
     @staticmethod
     def validate_num_coefficients(value: int) -> bool:
-- 
2.43.0


From 409edf9c81620048c916449394c397b710d3c443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:45 +0000
Subject: [PATCH 09/36] fix: report a training failure of the base PLS of OPLS

---
 src/wai/ma/algorithm/pls/_OPLS.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/wai/ma/algorithm/pls/_OPLS.py b/src/wai/ma/algorithm/pls/_OPLS.py
index ab11baa..ddc6d4e 100644
--- a/src/wai/ma/algorithm/pls/_OPLS.py
+++ b/src/wai/ma/algorithm/pls/_OPLS.py
@@ -148,9 +148,7 @@ class OPLS(AbstractSingleResponsePLS):
             self.P_orth.set_column(current_component, p_orth)
 
         self.X_osc = X.copy()
-        self.base_PLS.initialize(self.do_transform(predictors), response)
-
-        return None
+        return self.base_PLS.initialize(self.do_transform(predictors), response)
 
     def inv_L2_squared(self, v: Matrix) -> real:
         """
-- 
2.43.0


From 9a1816ee66c4d388313377920fbb87c115e28354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:50 +0000
Subject: [PATCH 10/36] fix: use each response column's own statistics when
 undoing the response preprocessing

---
 src/wai/ma/algorithm/pls/_AbstractMultiResponsePLS.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wai/ma/algorithm/pls/_AbstractMultiResponsePLS.py b/src/wai/ma/algorithm/pls/_AbstractMultiResponsePLS.py
index 8fed41d..af5e61b 100644
--- a/src/wai/ma/algorithm/pls/_AbstractMultiResponsePLS.py
+++ b/src/wai/ma/algorithm/pls/_AbstractMultiResponsePLS.py
@@ -98,13 +98,13 @@ class AbstractMultiResponsePLS(AbstractPLS):
         self.class_std_dev = [real(0)] * response.num_columns()
         for i in range(response.num_columns()):
             if self.preprocessing_type is PreprocessingType.CENTER:
-                self.class_mean[i] = helper.mean(response, 0)
+                self.class_mean[i] = helper.mean(response, i)
                 self.class_std_dev[i] = real(1)
                 self.trans_predictors = Center()
                 self.trans_response = Center()
             elif self.preprocessing_type is PreprocessingType.STANDARDIZE:
-                self.class_mean[i] = helper.mean(response, 0)
-                self.class_std_dev[i] = helper.stdev(response, 0)
+                self.class_mean[i] = helper.mean(response, i)
+                self.class_std_dev[i] = helper.stdev(response, i)
                 self.trans_predictors = Standardize()
                 self.trans_response = Standardize()
             elif self.preprocessing_type is PreprocessingType.NONE:
-- 
2.43.0


From 9372c335de61ab6e06cab650f93338ec6d852b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:54 +0000
Subject: [PATCH 11/36] fix: guard every constant column against division by
 zero when standardising

---
 src/wai/ma/transformation/_Standardize.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wai/ma/transformation/_Standardize.py b/src/wai/ma/transformation/_Standardize.py
index 22b31fc..acf672d 100644
--- a/src/wai/ma/transformation/_Standardize.py
+++ b/src/wai/ma/transformation/_Standardize.py
@@ -37,9 +37,9 @@ class Standardize(AbstractTransformation, Serialisable):
         self.means = column_means(data)
         self.std_devs = column_stdevs(data)
         # Make sure we don't do a divide by zero
-        for i in range(self.std_devs.num_rows()):
-            if self.std_devs.get(i, 0) == real(0):
-                self.std_devs.set(i, 0, 1)
+        for i in range(self.std_devs.num_columns()):
+            if self.std_devs.get(0, i) == real(0):
+                self.std_devs.set(0, i, 1)
         self.configured = True
 
     def do_transform(self, data: Matrix) -> Matrix:
-- 
2.43.0


From 831b582036a640c777bfaf6981b10c529a5cc514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:25 +0000
Subject: [PATCH 12/36] fix: apply the predictor preprocessing of the training
 at prediction and transformation too

---
 src/wai/ma/algorithm/pls/_AbstractMultiResponsePLS.py  | 3 +++
 src/wai/ma/algorithm/pls/_AbstractPLS.py               | 5 +++++
 src/wai/ma/algorithm/pls/_AbstractSingleResponsePLS.py | 3 +++
 src/wai/ma/algorithm/pls/_OPLS.py                      | 2 +-
 4 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/wai/ma/algorithm/pls/_AbstractMultiResponsePLS.py b/src/wai/ma/algorithm/pls/_AbstractMultiResponsePLS.py
index af5e61b..b5796d3 100644
--- a/src/wai/ma/algorithm/pls/_AbstractMultiResponsePLS.py
+++ b/src/wai/ma/algorithm/pls/_AbstractMultiResponsePLS.py
@@ -133,6 +133,9 @@ class AbstractMultiResponsePLS(AbstractPLS):
         :param predictors:  The input data.
         :return:            The transformed data and the predictions.
         """
+        if self.trans_predictors is not None:
+            predictors = self.trans_predictors.transform(predictors)
+
         result = self.do_perform_predictions(predictors)
         if self.trans_response is not None:
             for i in range(result.num_rows()):
diff --git a/src/wai/ma/algorithm/pls/_AbstractPLS.py b/src/wai/ma/algorithm/pls/_AbstractPLS.py
index ea6e2ae..cf247d1 100644
--- a/src/wai/ma/algorithm/pls/_AbstractPLS.py
+++ b/src/wai/ma/algorithm/pls/_AbstractPLS.py
@@ -20,6 +20,7 @@ from ...core import SupervisedFilter
 from ...algorithm import AbstractAlgorithm
 from ...core import PreprocessingType
 from ...core.matrix import Matrix
+from ...transformation import AbstractTransformation
 
 
 class AbstractPLS(AbstractAlgorithm, SupervisedFilter):
@@ -27,6 +28,7 @@ class AbstractPLS(AbstractAlgorithm, SupervisedFilter):
         super().__init__()
         self.preprocessing_type: PreprocessingType = PreprocessingType.NONE  # The preprocessing type to perform
         self.num_components: int = 5  # The maximum number of components to generate
+        self.trans_predictors: Optional[AbstractTransformation] = None  # The transformation for the predictors
 
     def initialize(self, predictors: Optional[Matrix] = None, response: Optional[Matrix] = None) -> Optional[str]:
         if predictors is None and response is None:
@@ -179,6 +181,9 @@ class AbstractPLS(AbstractAlgorithm, SupervisedFilter):
         if not self.is_initialised():
             raise RuntimeError('Algorithm has not been initialised!')
 
+        if self.trans_predictors is not None:
+            predictors = self.trans_predictors.transform(predictors)
+
         return self.do_transform(predictors)
 
     @abstractmethod
diff --git a/src/wai/ma/algorithm/pls/_AbstractSingleResponsePLS.py b/src/wai/ma/algorithm/pls/_AbstractSingleResponsePLS.py
index a02e056..72e4008 100644
--- a/src/wai/ma/algorithm/pls/_AbstractSingleResponsePLS.py
+++ b/src/wai/ma/algorithm/pls/_AbstractSingleResponsePLS.py
@@ -94,6 +94,9 @@ class AbstractSingleResponsePLS(AbstractPLS, ABC):
         :param predictors:  The input data.
         :return:            The transformed data and the predictions.
         """
+        if self.trans_predictors is not None:
+            predictors = self.trans_predictors.transform(predictors)
+
         result = self.do_perform_predictions(predictors)
         if self.trans_response is not None:
             for i in range(result.num_rows()):
diff --git a/src/wai/ma/algorithm/pls/_OPLS.py b/src/wai/ma/algorithm/pls/_OPLS.py
index ddc6d4e..32114ea 100644
--- a/src/wai/ma/algorithm/pls/_OPLS.py
+++ b/src/wai/ma/algorithm/pls/_OPLS.py
@@ -188,5 +188,5 @@ class OPLS(AbstractSingleResponsePLS):
         :param predictors:  The input data.
         :return:            The transformed data and the predictions.
         """
-        X_transformed: Matrix = self.transform(predictors)
+        X_transformed: Matrix = self.do_transform(predictors)
         return self.base_PLS.predict(X_transformed)
-- 
2.43.0


From b27e3c859da97cf8635c1207bbf4a4cec100c9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:29 +0000
Subject: [PATCH 13/36] fix: report a missing training matrix with the
 documented error message

---
 src/wai/ma/algorithm/_CCAFilter.py       | 6 +++---
 src/wai/ma/algorithm/glsw/_GLSW.py       | 4 ++--
 src/wai/ma/algorithm/pls/_AbstractPLS.py | 4 ++--
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/wai/ma/algorithm/_CCAFilter.py b/src/wai/ma/algorithm/_CCAFilter.py
index 20c4ca1..c1304c8 100644
--- a/src/wai/ma/algorithm/_CCAFilter.py
+++ b/src/wai/ma/algorithm/_CCAFilter.py
@@ -56,7 +56,7 @@ class CCAFilter(AbstractAlgorithm, SupervisedFilter):
         self.center_Y = Center()
 
     def initialize(self, x: Optional[Matrix] = None, y: Optional[Matrix] = None) -> Optional[str]:
-        if x is None or y is None:
+        if x is None and y is None:
             super().initialize()
             self.kcca = 1
             self.lambda_X = real(1e-2)
@@ -64,8 +64,8 @@ class CCAFilter(AbstractAlgorithm, SupervisedFilter):
             self.center_X = Center()
             self.center_Y = Center()
         else:
-            x = x.copy()
-            y = y.copy()
+            x = x.copy() if x is not None else None
+            y = y.copy() if y is not None else None
 
             self.reset()
 
diff --git a/src/wai/ma/algorithm/glsw/_GLSW.py b/src/wai/ma/algorithm/glsw/_GLSW.py
index 707e7e3..3e2a695 100644
--- a/src/wai/ma/algorithm/glsw/_GLSW.py
+++ b/src/wai/ma/algorithm/glsw/_GLSW.py
@@ -41,8 +41,8 @@ class GLSW(AbstractAlgorithm, SupervisedFilter):
             self.alpha = 1e-3
         else:
             # Always work on copies
-            x1 = x1.copy()
-            x2 = x2.copy()
+            x1 = x1.copy() if x1 is not None else None
+            x2 = x2.copy() if x2 is not None else None
 
             self.reset()
 
diff --git a/src/wai/ma/algorithm/pls/_AbstractPLS.py b/src/wai/ma/algorithm/pls/_AbstractPLS.py
index cf247d1..9fdc746 100644
--- a/src/wai/ma/algorithm/pls/_AbstractPLS.py
+++ b/src/wai/ma/algorithm/pls/_AbstractPLS.py
@@ -47,8 +47,8 @@ class AbstractPLS(AbstractAlgorithm, SupervisedFilter):
             :return:            None if successful, otherwise error message.
             """
             # Always work on copies
-            predictors = predictors.copy()
-            response = response.copy()
+            predictors = predictors.copy() if predictors is not None else None
+            response = response.copy() if response is not None else None
 
             self.reset()
 
-- 
2.43.0


From 492e01e57212352fed5fcbad60ddd86a8bc39194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:34 +0000
Subject: [PATCH 14/36] fix: save state to a file name without a directory

---
 src/wai/ma/core/_Serialisable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/core/_Serialisable.py b/src/wai/ma/core/_Serialisable.py
index 7890553..daf6611 100644
--- a/src/wai/ma/core/_Serialisable.py
+++ b/src/wai/ma/core/_Serialisable.py
@@ -45,7 +45,7 @@ class Serialisable(ABC):
         """
         # Make sure the directory for the file exists
         path = os.path.dirname(filename)
-        if not os.path.exists(path):
+        if path != '' and not os.path.exists(path):
             os.makedirs(path, exist_ok=True)
 
         # Save the file
-- 
2.43.0


From 0719a17df59769d670a199321150301c961b917b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:37 +0000
Subject: [PATCH 15/36] fix: reserve the sign bit when serialising big integers

---
 src/wai/ma/core/_Serialisable.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wai/ma/core/_Serialisable.py b/src/wai/ma/core/_Serialisable.py
index daf6611..d3080fc 100644
--- a/src/wai/ma/core/_Serialisable.py
+++ b/src/wai/ma/core/_Serialisable.py
@@ -93,7 +93,8 @@ class Serialisable(ABC):
         :return:        The bytes representation of the value.
         """
         # Get the number of bits required to represent this value.
-        bit_length: int = value.bit_length()
+        # (including the sign bit)
+        bit_length: int = value.bit_length() + 1
 
         # Get the number of bytes required to represent this value
         byte_length: int = (bit_length // 8) + (1 if bit_length % 8 != 0 else 0)
-- 
2.43.0


From ef50dd17d11a480cb70259df15559b0af66091a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:41 +0000
Subject: [PATCH 16/36] fix: draw random matrices without reseeding numpy's
 global generator

---
 src/wai/ma/core/matrix/factory.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/wai/ma/core/matrix/factory.py b/src/wai/ma/core/matrix/factory.py
index 48960d5..50f3bf9 100644
--- a/src/wai/ma/core/matrix/factory.py
+++ b/src/wai/ma/core/matrix/factory.py
@@ -148,8 +148,7 @@ def randn(rows: int, columns: int, seed: int = 1, mean: real = real(0), std: rea
     :param std:         The standard deviation of the normal distribution.
     :return:            The matrix.
     """
-    random.seed(seed)
-    data = random.rand(rows, columns)
+    data = random.RandomState(seed).rand(rows, columns)
     np.multiply(data, std)
     np.add(data, mean)
     return Matrix(data)
@@ -178,8 +177,7 @@ def rand(rows: int, columns: int, seed: int = 1) -> Matrix:
     :param seed:        The seed value to initialise the PRNG with.
     :return:            The matrix.
     """
-    random.seed(seed)
-    return Matrix(random.rand(rows, columns))
+    return Matrix(random.RandomState(seed).rand(rows, columns))
 
 
 def rand_like(other: Matrix, seed: int) -> Matrix:
-- 
2.43.0


From 43400d7395bf7719a78ddcc97b1a9ad29607e380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:52 +0000
Subject: [PATCH 17/36] fix: discard a trained NIPALS model when its weight
 normalisation or deflation mode is changed

---
 src/wai/ma/algorithm/pls/_NIPALS.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/wai/ma/algorithm/pls/_NIPALS.py b/src/wai/ma/algorithm/pls/_NIPALS.py
index 9bf596b..775f6f5 100644
--- a/src/wai/ma/algorithm/pls/_NIPALS.py
+++ b/src/wai/ma/algorithm/pls/_NIPALS.py
@@ -72,6 +72,14 @@ class NIPALS(AbstractMultiResponsePLS):
     def validate_max_iter(value: int) -> bool:
         return value >= 0
 
+    @staticmethod
+    def validate_norm_Y_weights(value: bool) -> bool:
+        return True
+
+    @staticmethod
+    def validate_deflation_mode(value: 'DeflationMode') -> bool:
+        return True
+
     @staticmethod
     def validate_tol(value: real) -> bool:
         return value >= ZERO
-- 
2.43.0


From c5437c3ea5e39f35740fbd9816a87c186762b1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:57 +0000
Subject: [PATCH 18/36] fix: reconfigure the scikit-learn based transformations
 after any of their options changes

---
 src/wai/ma/transformation/_PowerTransformer.py    |  3 +++
 src/wai/ma/transformation/_QuantileTransformer.py | 12 ++++++++++++
 src/wai/ma/transformation/_RobustScaler.py        |  6 ++++++
 3 files changed, 21 insertions(+)

diff --git a/src/wai/ma/transformation/_PowerTransformer.py b/src/wai/ma/transformation/_PowerTransformer.py
index ccdd96f..0edd067 100644
--- a/src/wai/ma/transformation/_PowerTransformer.py
+++ b/src/wai/ma/transformation/_PowerTransformer.py
@@ -50,6 +50,9 @@ class PowerTransformer(AbstractTransformation):
             raise ValueError(f"Method was {method} but must be one of: " +
                              ", ".join(PowerTransformer.METHODS))
 
+    def validate_standardise(self, standardise: bool):
+        pass
+
     def reset(self):
         super().reset()
         self._intern = None
diff --git a/src/wai/ma/transformation/_QuantileTransformer.py b/src/wai/ma/transformation/_QuantileTransformer.py
index b161ad4..564455c 100644
--- a/src/wai/ma/transformation/_QuantileTransformer.py
+++ b/src/wai/ma/transformation/_QuantileTransformer.py
@@ -53,6 +53,18 @@ class QuantileTransformer(AbstractTransformation):
             raise ValueError(f"Output distribution was {selection} but must be one of: " +
                              ", ".join(QuantileTransformer.OUTPUT_DISTRIBUTIONS))
 
+    def validate_n_quantiles(self, n_quantiles: int):
+        pass
+
+    def validate_ignore_implicit_zeroes(self, ignore_implicit_zeroes: bool):
+        pass
+
+    def validate_subsample(self, subsample: int):
+        pass
+
+    def validate_random_state(self, random_state: Optional[int]):
+        pass
+
     def reset(self):
         super().reset()
         self._intern = None
diff --git a/src/wai/ma/transformation/_RobustScaler.py b/src/wai/ma/transformation/_RobustScaler.py
index 884dbb8..6739406 100644
--- a/src/wai/ma/transformation/_RobustScaler.py
+++ b/src/wai/ma/transformation/_RobustScaler.py
@@ -51,6 +51,12 @@ class RobustScaler(AbstractTransformation):
             raise ValueError(f"Quantile range must be 0.0 < q_min < q_max < 100.0. "
                              f"Got q_min={selection[0]}, q_max={selection[1]}")
 
+    def validate_with_centering(self, with_centering: bool):
+        pass
+
+    def validate_with_scaling(self, with_scaling: bool):
+        pass
+
     def reset(self):
         super().reset()
         self._intern = None
-- 
2.43.0


From b9433e301932114171317095e70b810c8268e23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:02 +0000
Subject: [PATCH 19/36] fix: PRM reports an unavailable weight matrix as None

---
 src/wai/ma/algorithm/pls/_PRM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/algorithm/pls/_PRM.py b/src/wai/ma/algorithm/pls/_PRM.py
index 073b0a4..fefd73b 100644
--- a/src/wai/ma/algorithm/pls/_PRM.py
+++ b/src/wai/ma/algorithm/pls/_PRM.py
@@ -100,7 +100,7 @@ class PRM(AbstractSingleResponsePLS):
                 return self.W_r
             if case('Wx'):
                 return self.W_x
-            if case('W'):
+            if case('W') and self.W_r is not None and self.W_x is not None:
                 return self.W_r.mul_elementwise(self.W_x)
         return None
 
-- 
2.43.0


From 474fc3ebb1a44f3d08d294237056f7eb8cf38257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:11 +0000
Subject: [PATCH 20/36] fix: FastICA and PCA keep their sources and scores
 separate from the returned matrix

---
 src/wai/ma/algorithm/_PCA.py         | 2 +-
 src/wai/ma/algorithm/ica/_FastICA.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wai/ma/algorithm/_PCA.py b/src/wai/ma/algorithm/_PCA.py
index 6b92331..97dc77a 100644
--- a/src/wai/ma/algorithm/_PCA.py
+++ b/src/wai/ma/algorithm/_PCA.py
@@ -264,7 +264,7 @@ class PCA(AbstractAlgorithm, Filter):
         self.reset()
         self.configure(data)
         result = self.do_transform(data)
-        self.scores = result
+        self.scores = result.copy()
         self.loadings = self.extract_loadings()
 
         return result
diff --git a/src/wai/ma/algorithm/ica/_FastICA.py b/src/wai/ma/algorithm/ica/_FastICA.py
index d10ae59..add071d 100644
--- a/src/wai/ma/algorithm/ica/_FastICA.py
+++ b/src/wai/ma/algorithm/ica/_FastICA.py
@@ -243,7 +243,7 @@ class FastICA(AbstractAlgorithm, Filter):
         :param data:    The original data to transform.
         :return:        The transformed data.
         """
-        return self.sources
+        return self.sources.copy()
 
     def transform(self, data: Matrix) -> Matrix:
         self.reset()
-- 
2.43.0


From 78dc952b700c735f7a94402338183eae0e4bd6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:39 +0000
Subject: [PATCH 21/36] fix: FastICA leaves its num_components setting alone
 when the data has fewer components

---
 src/wai/ma/algorithm/ica/_FastICA.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/wai/ma/algorithm/ica/_FastICA.py b/src/wai/ma/algorithm/ica/_FastICA.py
index add071d..5eae872 100644
--- a/src/wai/ma/algorithm/ica/_FastICA.py
+++ b/src/wai/ma/algorithm/ica/_FastICA.py
@@ -85,14 +85,15 @@ class FastICA(AbstractAlgorithm, Filter):
         X1: Optional[Matrix] = None
 
         min_NP: int = min(n, p)
+        num_components: int = self.num_components
 
         if not self.whiten:
-            self.num_components = min_NP
+            num_components = min_NP
             self.logger.warning('Ignoring num_components when $whiten=False')
 
-        if self.num_components > min_NP:
+        if num_components > min_NP:
             self.logger.warning('num_components is too large and will be set to ' + str(min_NP))
-            self.num_components = min_NP
+            num_components = min_NP
 
         # Whiten data
         if self.whiten:
@@ -103,7 +104,7 @@ class FastICA(AbstractAlgorithm, Filter):
             d = d.get_rows((0, k))  # Only get non-zero singular values
             d_inv_elements: Matrix = d.apply_elementwise(lambda a: 1.0 / a)
             tmp: Matrix = U.scale_by_row_vector(d_inv_elements).transpose()
-            self.whitening = tmp.get_rows((0, min(tmp.num_rows(), self.num_components)))
+            self.whitening = tmp.get_rows((0, min(tmp.num_rows(), num_components)))
 
             X1 = self.whitening.mul(X)
             X1 = X1.mul(sqrt(p))
@@ -111,7 +112,7 @@ class FastICA(AbstractAlgorithm, Filter):
             X1 = X
 
         # Randomly initialise weights from normal dist
-        W_init: Matrix = randn(self.num_components, self.num_components, 1)
+        W_init: Matrix = randn(num_components, num_components, 1)
 
         # Use deflation algorithm
         if self.algorithm is Algorithm.DEFLATION:
@@ -137,9 +138,10 @@ class FastICA(AbstractAlgorithm, Filter):
         :param X:       Input.
         :return:        Weights
         """
-        W: Matrix = zeros(self.num_components, self.num_components)
+        num_components: int = W_init.num_rows()
+        W: Matrix = zeros(num_components, num_components)
 
-        for j in range(self.num_components):
+        for j in range(num_components):
             w: Matrix = W_init.get_row(j).transpose().copy()
             w = w.div(w.pow_elementwise(2).sum(-1).sqrt().as_real())
             for i in range(self.max_iter):
-- 
2.43.0


From 62dadfe9e0f9ddb7d80a7e7f87a3e98388a78030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:44 +0000
Subject: [PATCH 22/36] fix: kernels derive an unset gamma from the data at
 hand instead of storing the first one

---
 src/wai/ma/transformation/kernel/_PolyKernel.py | 11 +++++------
 src/wai/ma/transformation/kernel/_RBFKernel.py  |  9 +++++----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/wai/ma/transformation/kernel/_PolyKernel.py b/src/wai/ma/transformation/kernel/_PolyKernel.py
index be5ac88..147e662 100644
--- a/src/wai/ma/transformation/kernel/_PolyKernel.py
+++ b/src/wai/ma/transformation/kernel/_PolyKernel.py
@@ -13,6 +13,7 @@
 #
 #  You should have received a copy of the GNU General Public License
 #  along with this program.  If not, see <http://www.gnu.org/licenses/>.
+from math import isnan
 from typing import Optional
 
 from ...core import ZERO, real, NAN, ONE
@@ -40,19 +41,17 @@ class PolyKernel(AbstractKernel):
     def apply_matrix(self, X: Matrix, Y: Optional[Matrix] = None) -> Matrix:
         if Y is None:
             Y = X
-        if self.gamma is NAN:
-            self.gamma = ONE / X.num_columns()
+        gamma: real = self.gamma if not isnan(self.gamma) else ONE / X.num_columns()
         result: Matrix = X.mul(Y.transpose())
-        result = result.mul(self.gamma)
+        result = result.mul(gamma)
         result = result.add(self.coef_0)
         result = result.pow_elementwise(self.degree)
         return result
 
     def apply_vector(self, x: Matrix, y: Matrix) -> real:
         linear_term: real = x.vector_dot(y)
-        if self.gamma is NAN:
-            self.gamma = ONE / x.num_columns()
-        return pow(self.gamma * linear_term + self.coef_0, self.degree)
+        gamma: real = self.gamma if not isnan(self.gamma) else ONE / x.num_columns()
+        return pow(gamma * linear_term + self.coef_0, self.degree)
 
     def __str__(self):
         return 'Polynomial Kernel: K(x,y)=(gamma*x^T*y + coef_0)^d, ' +\
diff --git a/src/wai/ma/transformation/kernel/_RBFKernel.py b/src/wai/ma/transformation/kernel/_RBFKernel.py
index a7d30ba..981c3b5 100644
--- a/src/wai/ma/transformation/kernel/_RBFKernel.py
+++ b/src/wai/ma/transformation/kernel/_RBFKernel.py
@@ -13,7 +13,9 @@
 #
 #  You should have received a copy of the GNU General Public License
 #  along with this program.  If not, see <http://www.gnu.org/licenses/>.
-from ...core import ONE, real, NAN
+from math import isnan
+
+from ...core import ONE, real
 from ...core.matrix import Matrix
 from ...core.utils import exp
 from ._AbstractKernel import AbstractKernel
@@ -33,9 +35,8 @@ class RBFKernel(AbstractKernel):
 
     def apply_vector(self, x: Matrix, y: Matrix) -> real:
         norm_2: real = x.sub(y).norm2()
-        if self.gamma is NAN:
-            self.gamma = ONE / x.num_columns()
-        return exp(-ONE * self.gamma * norm_2)
+        gamma: real = self.gamma if not isnan(self.gamma) else ONE / x.num_columns()
+        return exp(-ONE * gamma * norm_2)
 
     def __str__(self):
         return 'RBF Kernel: K(x,y) = exp(-1*gamma*||x - y||^2), gamma=' + str(self.gamma)
-- 
2.43.0


From 3813d9aa7865811632171e2af874540b27e50cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:49 +0000
Subject: [PATCH 23/36] fix: SparsePLS transforms each row independently of the
 other rows of the batch

---
 src/wai/ma/algorithm/pls/_SparsePLS.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/wai/ma/algorithm/pls/_SparsePLS.py b/src/wai/ma/algorithm/pls/_SparsePLS.py
index f72d68f..dedb19e 100644
--- a/src/wai/ma/algorithm/pls/_SparsePLS.py
+++ b/src/wai/ma/algorithm/pls/_SparsePLS.py
@@ -51,6 +51,7 @@ class SparsePLS(AbstractSingleResponsePLS):
         self.lambda_: real = ZERO  # Sparsity parameter. Determines sparseness
         self.A: Optional[Set[int]] = None
         self.W: Optional[Matrix] = None  # Loadings
+        self.P: Optional[Matrix] = None  # Deflation loadings of the training predictors
         self.standardize_X: Optional[Standardize] = None  # Standardize X
         self.standardize_Y: Optional[Standardize] = None  # Standardize Y
 
@@ -74,6 +75,7 @@ class SparsePLS(AbstractSingleResponsePLS):
         self.B_pls = None
         self.A = None
         self.W = None
+        self.P = None
         self.standardize_X = Standardize()
         self.standardize_Y = Standardize()
 
@@ -173,6 +175,14 @@ class SparsePLS(AbstractSingleResponsePLS):
             l: List[str] = [str(a) for a in sorted(self.A)]
             self.logger.info(','.join(l))
 
+        # Learn the loadings used to deflate the predictors in do_transform
+        self.P = factory.zeros(predictors.num_columns(), self.num_components)
+        for k in range(self.num_components):
+            t_k: Matrix = predictors.mul(self.W.get_column(k))
+            p_k: Matrix = predictors.transpose().mul(t_k).div(t_k.norm2_squared())
+            self.P.set_column(k, p_k)
+            predictors = predictors.sub(t_k.mul(p_k.transpose()))
+
         return None
 
     def get_regression_coefficient(self, X_A: Matrix, y: Matrix, k: int) -> Matrix:
@@ -282,7 +292,7 @@ class SparsePLS(AbstractSingleResponsePLS):
             t_k: Matrix = X.mul(w_k)
             T.set_column(k, t_k)
 
-            p_k: Matrix = X.transpose().mul(t_k).div(t_k.norm2_squared())
+            p_k: Matrix = self.P.get_column(k)
             X = X.sub(t_k.mul(p_k.transpose()))
 
         return T
-- 
2.43.0


From dc7fbec2eb0d16daa9ea863ec7f597e270baf7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:54 +0000
Subject: [PATCH 24/36] fix: report empty input when reading a matrix from an
 open file

---
 src/wai/ma/core/matrix/helper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wai/ma/core/matrix/helper.py b/src/wai/ma/core/matrix/helper.py
index e1c9383..85c0fc3 100644
--- a/src/wai/ma/core/matrix/helper.py
+++ b/src/wai/ma/core/matrix/helper.py
@@ -109,12 +109,12 @@ def read(filename: Union[str, IO[str]], header: bool, separator: str) -> Matrix:
         lines = [line for line in filename]
 
     if len(lines) == 0:
-        raise RuntimeError('No rows in file: ' + filename)
+        raise RuntimeError('No rows in file: ' + str(filename))
 
     if header:
         lines = lines[1:]
     if len(lines) == 0:
-        raise RuntimeError('No data rows in file: ' + filename)
+        raise RuntimeError('No data rows in file: ' + str(filename))
 
     sep = separator
     cells = lines[0].split(sep)
-- 
2.43.0


From 25a7532b5c37e01066ab54bbca0c929e17c679d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:59 +0000
Subject: [PATCH 25/36] fix: max_index returns the index of the maximum

---
 src/wai/ma/core/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/core/utils.py b/src/wai/ma/core/utils.py
index 12248ef..0539e9f 100644
--- a/src/wai/ma/core/utils.py
+++ b/src/wai/ma/core/utils.py
@@ -246,7 +246,7 @@ def max_index(reals: List[real]) -> int:
 
     for i in range(len(reals)):
         if i == 0 or reals[i] > maximum:
-            max_index = 1
+            max_index = i
             maximum = reals[i]
 
     return max_index
-- 
2.43.0


From befb4542fc79a31c8f5b9e5091db2c8aa066297e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:04 +0000
Subject: [PATCH 26/36] fix: sort handles NaN as documented and plain numbers

---
 src/wai/ma/core/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/core/utils.py b/src/wai/ma/core/utils.py
index 0539e9f..b7b8c67 100644
--- a/src/wai/ma/core/utils.py
+++ b/src/wai/ma/core/utils.py
@@ -185,7 +185,7 @@ def sort(array: List[real]) -> List[int]:
     """
     index = initial_index(len(array))
     if len(array) > 1:
-        array = list(array)
+        array = [np.finfo(real).max if np.isnan(x) else real(x) for x in array]
         quick_sort(array, index, 0, len(array) - 1)
     return index
 
-- 
2.43.0


From 17202da9e75e76fccfefe9169379da5ec1341e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:09 +0000
Subject: [PATCH 27/36] fix: format NaN as documented

---
 src/wai/ma/core/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/core/utils.py b/src/wai/ma/core/utils.py
index b7b8c67..951242a 100644
--- a/src/wai/ma/core/utils.py
+++ b/src/wai/ma/core/utils.py
@@ -264,7 +264,7 @@ def real_to_string_fixed(value: real, after_decimal_point: int) -> str:
     :return:                        The real as a formatted string.
     """
     # Special numbers
-    if value == real(NAN):
+    if np.isnan(value):
         return NAN
     elif value == real(NEGATIVE_INFINITY):
         return NEGATIVE_INFINITY
-- 
2.43.0


From 05d07df023c5890dd1a22561c7ef64653d0edd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:26 +0000
Subject: [PATCH 28/36] fix: PCA reports itself as initialised once it has been
 configured

---
 src/wai/ma/algorithm/_PCA.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wai/ma/algorithm/_PCA.py b/src/wai/ma/algorithm/_PCA.py
index 97dc77a..5fea96e 100644
--- a/src/wai/ma/algorithm/_PCA.py
+++ b/src/wai/ma/algorithm/_PCA.py
@@ -146,6 +146,7 @@ class PCA(AbstractAlgorithm, Filter):
         self.sum_of_eigenvalues = sum(self.eigenvalues.to_raw_copy_1D())
 
         self.train = None
+        self.initialised = True
 
     def do_transform(self, data: Matrix) -> Matrix:
         """
-- 
2.43.0


From d295df98caadd0eecc4af43252d3d8f16364e852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:19 +0000
Subject: [PATCH 29/36] fix: NIPALS and CCARegression train on several response
 columns

scale_by_row_vector takes its factors as a column vector, but the response
standard deviations are a row vector, so training with more than one
response column always raised.
---
 src/wai/ma/algorithm/pls/_NIPALS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/algorithm/pls/_NIPALS.py b/src/wai/ma/algorithm/pls/_NIPALS.py
index 775f6f5..aadd396 100644
--- a/src/wai/ma/algorithm/pls/_NIPALS.py
+++ b/src/wai/ma/algorithm/pls/_NIPALS.py
@@ -162,7 +162,7 @@ class NIPALS(AbstractMultiResponsePLS):
 
         # Calculate regression coefficients
         y_stds: Matrix = self.standardize_Y.get_std_devs()
-        self.coef = self.X_rotations.mul(self.Y_loadings.transpose()).scale_by_row_vector(y_stds)
+        self.coef = self.X_rotations.mul(self.Y_loadings.transpose()).scale_by_row_vector(y_stds.transpose())
         return None
 
     def nipals_loop(self, X: Matrix, Y: Matrix) -> 'NipalsLoopResult':
-- 
2.43.0


From 798e98a470812509e79aef2f138fe80613b1b2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:05 +0000
Subject: [PATCH 30/36] fix: semi-supervised DIPLS accepts differently sized
 domains

The labelled part of the predictors was taken to be twice the number of
source samples, so training raised unless both domains had the same
number of samples.
---
 src/wai/ma/algorithm/pls/_DIPLS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/algorithm/pls/_DIPLS.py b/src/wai/ma/algorithm/pls/_DIPLS.py
index e301149..6af5665 100644
--- a/src/wai/ma/algorithm/pls/_DIPLS.py
+++ b/src/wai/ma/algorithm/pls/_DIPLS.py
@@ -140,7 +140,7 @@ class DIPLS(AbstractSingleResponsePLS):
                 X_s: Matrix = predictors.get_rows((0, self.ns))
                 X_t: Matrix = predictors.get_rows((self.ns, predictors.num_rows()))
 
-                X: Matrix = predictors.get_rows((0, 2 * self.ns))
+                X: Matrix = predictors.get_rows((0, self.ns + self.nt))
                 y = response
                 break_()
 
-- 
2.43.0


From 9dce4e33398fa2762ce9f0fbba5850116dae128d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:09 +0000
Subject: [PATCH 31/36] fix: FastICA.reconstruct undoes the centring that was
 applied

The reconstruction was transposed before the column means were added,
which raised unless the data was square.
Without whitening the data is never centred, so undoing the centring
configured the centring filter on the reconstruction and added its means.
---
 src/wai/ma/algorithm/ica/_FastICA.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/wai/ma/algorithm/ica/_FastICA.py b/src/wai/ma/algorithm/ica/_FastICA.py
index 5eae872..08e17ea 100644
--- a/src/wai/ma/algorithm/ica/_FastICA.py
+++ b/src/wai/ma/algorithm/ica/_FastICA.py
@@ -256,7 +256,10 @@ class FastICA(AbstractAlgorithm, Filter):
 
     def reconstruct(self) -> Matrix:
         if self.is_initialised():
-            return self.center.inverse_transform(self.sources.mul(self.mixing.transpose()).transpose()).transpose()
+            reconstructed: Matrix = self.sources.mul(self.mixing.transpose())
+            if not self.whiten:
+                return reconstructed
+            return self.center.inverse_transform(reconstructed)
         else:
             raise MatrixAlgorithmsError('FastICA has not yet been initialized!')
 
-- 
2.43.0


From 94aa033016dbe4442a4e5ef18c4c6045630c1110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:35 +0000
Subject: [PATCH 32/36] fix: PRM.transform works for data with more columns
 than rows

The latent space is then learnt on the reduced n x n representation of the
predictors, but transform multiplied the original predictors with its
weights and raised.
---
 src/wai/ma/algorithm/pls/_PRM.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/wai/ma/algorithm/pls/_PRM.py b/src/wai/ma/algorithm/pls/_PRM.py
index fefd73b..9b2b5c6 100644
--- a/src/wai/ma/algorithm/pls/_PRM.py
+++ b/src/wai/ma/algorithm/pls/_PRM.py
@@ -50,6 +50,7 @@ class PRM(AbstractSingleResponsePLS):
         self.num_SIMPLS_coefficients: int = 0  # The number of SIMPLS coefficients in W to keep (0 keep all)
         self.final_regression_coefficients: Optional[Matrix] = None  # Final regression coefficients
         self.simpls: Optional[SIMPLS] = None  # SIMPLS algorithm
+        self.U: Optional[Matrix] = None  # Basis of the row space of X (only if there are more columns than rows)
 
     @staticmethod
     def validate_num_SIMPLS_coefficients(value: int) -> bool:
@@ -75,6 +76,7 @@ class PRM(AbstractSingleResponsePLS):
         self.gamma = None
         self.T = None
         self.simpls = None
+        self.U = None
 
     def initialize(self, predictors: Optional[Matrix] = None, response: Optional[Matrix] = None) -> Optional[str]:
         if predictors is None and response is None:
@@ -211,14 +213,13 @@ class PRM(AbstractSingleResponsePLS):
         """
         X: Matrix = predictors
         y: Matrix = response
-        U: Optional[Matrix] = None
 
         # If X: n x p and p > n, use SVD to replace X with n x n matrix
         # See also: Remark 2 in paper
         has_more_columns_than_rows: bool = X.num_columns() > X.num_rows()
         if has_more_columns_than_rows:
             X_t: Matrix = X.transpose()
-            U = X_t.svd_U()
+            self.U = X_t.svd_U()
             V: Matrix = X_t.svd_V()
             S: Matrix = X_t.svd_S()
 
@@ -266,7 +267,7 @@ class PRM(AbstractSingleResponsePLS):
         # If X has been replaced by US, the regression coefficients need to be
         # back-transformed into beta_hat = U*beta_p
         if has_more_columns_than_rows:
-            self.final_regression_coefficients = U.mul(self.final_regression_coefficients)
+            self.final_regression_coefficients = self.U.mul(self.final_regression_coefficients)
 
         return None
 
@@ -274,6 +275,8 @@ class PRM(AbstractSingleResponsePLS):
         return True
 
     def do_transform(self, predictors: Matrix) -> Matrix:
+        if self.U is not None:
+            predictors = predictors.mul(self.U)
         return predictors.mul(self.simpls.get_matrix('W'))
 
     def do_perform_predictions(self, predictors: Matrix) -> Matrix:
-- 
2.43.0


From 4b33ff862d4d502cecdc07fd0dec76240beef4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:31 +0000
Subject: [PATCH 33/36] fix: failed DIPLS training does not leave a
 half-changed trained model

The three domain-specific training methods changed the adaption strategy
and the sample counts of a trained model before looking at the data. If
joining the domains failed, the model stayed trained, but its predictions
were centred with the statistics of another strategy.
---
 src/wai/ma/algorithm/pls/_DIPLS.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/wai/ma/algorithm/pls/_DIPLS.py b/src/wai/ma/algorithm/pls/_DIPLS.py
index 6af5665..1496b0a 100644
--- a/src/wai/ma/algorithm/pls/_DIPLS.py
+++ b/src/wai/ma/algorithm/pls/_DIPLS.py
@@ -246,6 +246,7 @@ class DIPLS(AbstractSingleResponsePLS):
         :param response_source_domain:      Response from source domain.
         :return:                            Result, None if no errors, else error string.
         """
+        self.reset()
         self.ns = predictors_source_domain.num_rows()
         self.nt = predictors_target_domain.num_rows()
         self.model_adaption_strategy = ModelAdaptionStrategy.UNSUPERVISED
@@ -268,6 +269,7 @@ class DIPLS(AbstractSingleResponsePLS):
         :param response_target_domain:      Response from target domain.
         :return:                            Result, None if no errors, else error string.
         """
+        self.reset()
         self.ns = predictors_source_domain.num_rows()
         self.nt = predictors_target_domain.num_rows()
         self.model_adaption_strategy = ModelAdaptionStrategy.SUPERVISED
@@ -292,6 +294,7 @@ class DIPLS(AbstractSingleResponsePLS):
         :param response_target_domain:              Response from target domain.
         :return:                                    Result, None if no errors, else error string.
         """
+        self.reset()
         self.ns = predictors_source_domain.num_rows()
         self.nt = predictors_target_domain.num_rows()
         self.model_adaption_strategy = ModelAdaptionStrategy.SEMISUPERVISED
-- 
2.43.0


From adb21a7a0eb00ec1e8310b3728e1a3dae2a5b08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:22 +0000
Subject: [PATCH 34/36] fix: RowNorm.inverse_transform does not affect later
 transforms

RowNorm reconfigures on every input, but inverse_transform marked it as
configured, so the next transform normalised its rows with the statistics
of unrelated data (or raised if the number of rows differed).
---
 src/wai/ma/transformation/_RowNorm.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/wai/ma/transformation/_RowNorm.py b/src/wai/ma/transformation/_RowNorm.py
index b7b86b5..1b198db 100644
--- a/src/wai/ma/transformation/_RowNorm.py
+++ b/src/wai/ma/transformation/_RowNorm.py
@@ -53,6 +53,11 @@ class RowNorm(AbstractTransformation):
         result.data += self.means.data
         return result
 
+    def inverse_transform(self, data: Matrix) -> Matrix:
+        # Reconfigures on every input (like transform), so must not mark itself as configured
+        self.configure(data)
+        return self.do_inverse_transform(data)
+
     def get_means(self) -> Matrix:
         return self.means
 
-- 
2.43.0


From 2a47fdc530e09e024a14c79ba8d3eac7292c72d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:18 +0000
Subject: [PATCH 35/36] fix: FastICA without whitening failed for data with
 more columns than rows

---
 src/wai/ma/algorithm/ica/_FastICA.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/wai/ma/algorithm/ica/_FastICA.py b/src/wai/ma/algorithm/ica/_FastICA.py
index 08e17ea..ab1808b 100644
--- a/src/wai/ma/algorithm/ica/_FastICA.py
+++ b/src/wai/ma/algorithm/ica/_FastICA.py
@@ -88,10 +88,9 @@ class FastICA(AbstractAlgorithm, Filter):
         num_components: int = self.num_components
 
         if not self.whiten:
-            num_components = min_NP
+            num_components = n
             self.logger.warning('Ignoring num_components when $whiten=False')
-
-        if num_components > min_NP:
+        elif num_components > min_NP:
             self.logger.warning('num_components is too large and will be set to ' + str(min_NP))
             num_components = min_NP
 
-- 
2.43.0


From 6d4468d66087ba660d880c8506db493419b64ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:49 +0000
Subject: [PATCH 36/36] fix: a vector of one element is also a column vector of
 a single row

---
 src/wai/ma/core/matrix/_Matrix.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/wai/ma/core/matrix/_Matrix.py b/src/wai/ma/core/matrix/_Matrix.py
index 37f61f0..4876cdf 100644
--- a/src/wai/ma/core/matrix/_Matrix.py
+++ b/src/wai/ma/core/matrix/_Matrix.py
@@ -559,10 +559,9 @@ class Matrix(Serialisable):
     def vector_size_matches(self, vector: 'Matrix') -> bool:
         if not vector.is_vector():
             return False
-        elif vector.is_row_vector():
-            return self.num_columns() == vector.num_columns()
-        else:
-            return self.num_rows() == vector.num_rows()
+        # A single element is both a row and a column vector
+        return (vector.is_row_vector() and self.num_columns() == vector.num_columns()) or \
+               (vector.is_column_vector() and self.num_rows() == vector.num_rows())
 
     def ensure_vector_size_matches(self, vector: 'Matrix'):
         if not self.vector_size_matches(vector):
-- 
2.43.0

