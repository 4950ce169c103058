From 9d71e1c66e287068650b3b3bf15d100eb1c4acec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:54 +0000
Subject: [PATCH 01/83] fix: trees: take the same branch as scikit-learn at
 split thresholds

scikit-learn goes left when feature <= threshold, the generated code when
feature < threshold, with the threshold truncated to the feature type.
---
 emlearn/cgen.py  | 12 ++++++++++++
 emlearn/trees.py | 35 ++++++++++++++++++++++++++++++++---
 2 files changed, 44 insertions(+), 3 deletions(-)

diff --git a/emlearn/cgen.py b/emlearn/cgen.py
index e83d2d6..cb650b7 100644
--- a/emlearn/cgen.py
+++ b/emlearn/cgen.py
@@ -39,6 +39,18 @@ def struct_declare(name, type_name, values=[], modifiers='static const'):
     return out
     
 
+def integer_limits(dtype):
+    """
+    Lowest and highest value of a C integer type.
+    Types of unknown width, like "int", are assumed to have at least 32 bits
+    """
+    match = re.fullmatch(r'(u?)int(8|16|32|64)_t', dtype)
+    unsigned, bits = (match.group(1), int(match.group(2))) if match else ('', 32)
+    if unsigned:
+        return 0, 2**bits - 1
+    else:
+        return -2**(bits-1), 2**(bits-1) - 1
+
 def constant(val, dtype='float'):
     """A literal value
 
diff --git a/emlearn/trees.py b/emlearn/trees.py
index d022e83..1a7a763 100644
--- a/emlearn/trees.py
+++ b/emlearn/trees.py
@@ -306,6 +306,34 @@ def encode_child(index, child):
     assert_valid_child(encoded)
     return encoded
 
+def encode_threshold(th, dtype):
+    """
+    Threshold as a value of the feature datatype
+
+    scikit-learn goes left when feature <= threshold.
+    For floats, the returned value is to be compared using feature <= value.
+    For integers, the returned value is to be compared using feature < value.
+
+    :raises ValueError: If the feature datatype cannot represent the threshold
+    """
+    if 'int' in dtype:
+        value = math.floor(th) + 1
+        lowest, highest = cgen.integer_limits(dtype)
+        if value <= lowest or value > highest:
+            raise ValueError(f"Threshold {th} is outside the range of feature dtype '{dtype}'")
+        return value
+    elif dtype == 'float':
+        with numpy.errstate(over='ignore'):
+            value = numpy.float32(th)
+            if float(value) > float(th):
+                # next lower float, so that exactly the same floats are on each side
+                value = numpy.nextafter(value, numpy.float32(-numpy.inf))
+        if not numpy.isfinite(value):
+            raise ValueError(f"Threshold {th} is outside the range of feature dtype '{dtype}'")
+        return value
+    else:
+        return th
+
 def generate_c_nodes(flat, name, dtype='float', modifiers='static const'):
 
     def make_node(index, node):
@@ -313,7 +341,7 @@ def generate_c_nodes(flat, name, dtype='float', modifiers='static const'):
 
         left = encode_child(index, left_child)
         right = encode_child(index, right_child)
-        value = cgen.constant(value, dtype=dtype)
+        value = cgen.constant(encode_threshold(value, dtype), dtype=dtype)
 
         return "{{ {}, {}, {}, {} }}".format(feature, value, left, right)
 
@@ -371,13 +399,14 @@ def generate_c_inlined(forest, name, n_features, n_classes=0, leaf_bits=0, dtype
         value = cgen.constant(data, dtype=leaf_dtype)
         return (depth*indent * ' ') + "return {};".format(value)
     def c_internal(n, depth):
-        f = """{indent}if (features[{feature}] < {value}) {{
+        f = """{indent}if (features[{feature}] {compare} {value}) {{
         {left}
         {indent}}} else {{
         {right}
         {indent}}}""".format(**{
             'feature': cgen.constant(n[0], dtype='int'),
-            'value': cgen.constant(n[1], dtype=dtype),
+            'compare': '<' if 'int' in dtype else '<=',
+            'value': cgen.constant(encode_threshold(n[1], dtype), dtype=dtype),
             'left': c_node(n[2], depth+1),
             'right': c_node(n[3], depth+1),
             'indent': depth*indent*' ',
-- 
2.43.0


From 8df9e986976b4abd5429e73e2d0c5e87563702fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 02/83] fix: cgen: literals keep the value of the Python number

Float literals had 6 decimals, so small values became zero and large ones
inexact. Integers out of range or with a fraction were emitted as other values.
---
 emlearn/cgen.py   | 23 +++++++++++++++++++++--
 emlearn/signal.py |  9 ++++++---
 2 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/emlearn/cgen.py b/emlearn/cgen.py
index cb650b7..c4132ad 100644
--- a/emlearn/cgen.py
+++ b/emlearn/cgen.py
@@ -7,6 +7,8 @@ C code generation utilities
 
 import re
 
+import numpy
+
 VALID_IDENTIFIER_REGEX = r'^[_a-zA-Z][_a-zA-Z0-9]*$' # valid C identifiers
 from .creserved import RESERVED_WORDS
 
@@ -59,9 +61,23 @@ def constant(val, dtype='float'):
     "3.14f"
     """
     if dtype == 'float':
-        return "{:.6f}f".format(val)
+        with numpy.errstate(all='ignore'):
+            expected = numpy.float32(val)
+            if not numpy.isfinite(expected):
+                raise ValueError(f"{val} cannot be represented as a float literal")
+            literal = "{:.6f}".format(val)
+            if numpy.float32(literal) != expected:
+                # enough digits to get exactly this float
+                literal = "{:.8e}".format(expected)
+        return literal + "f"
     elif 'int' in dtype:
-        return "{:d}".format(int(val))
+        integer = int(val)
+        lowest, highest = integer_limits(dtype)
+        if integer != val or integer < lowest or integer > highest:
+            raise ValueError(f"{val} cannot be represented as {dtype}")
+        return "{:d}".format(integer)
+    elif dtype == 'double':
+        return repr(float(val))
     else:
         return str(val)
 
@@ -125,6 +141,9 @@ def array_declare_fixedpoint(name, fixedpoint : FixedPointFormat = None, values=
 
     assert fixedpoint.total_bits == 32, ('code assumes 32 bit size for the fixed-point format')
     converted = from_float(values, fmt=fixedpoint)
+    lowest, highest = integer_limits('int32_t')
+    if len(converted) and (numpy.min(converted) < lowest or numpy.max(converted) > highest):
+        raise ValueError(f"Values outside the range of {fixedpoint}")
     return array_declare(name, values=converted, dtype=fixedpoint.ctype, **kwargs)
 
 
diff --git a/emlearn/signal.py b/emlearn/signal.py
index 9749801..e606726 100644
--- a/emlearn/signal.py
+++ b/emlearn/signal.py
@@ -29,6 +29,9 @@ def sparse_filterbank_serialize(sparse, name, frequencies=None, n_fft=None, sr=N
     assert len(starts) == len(ends)
     n_bands = len(starts)
 
+    def number_dtype(val):
+        return 'int' if int(val) == val else 'float'
+
     arrays = [
         cgen.constant_declare(name+'_bands', val=n_bands),
         cgen.array_declare(name+'_starts', len(starts), dtype='int', values=starts),
@@ -46,15 +49,15 @@ def sparse_filterbank_serialize(sparse, name, frequencies=None, n_fft=None, sr=N
         ]
     if sr is not None:
         arrays += [
-            cgen.constant_declare(name+'_samplerate', val=sr),
+            cgen.constant_declare(name+'_samplerate', val=sr, dtype=number_dtype(sr)),
         ]
     if fmax is not None:
         arrays += [
-            cgen.constant_declare(name+'_fmax', val=fmax),
+            cgen.constant_declare(name+'_fmax', val=fmax, dtype=number_dtype(fmax)),
         ]
     if fmin is not None:
         arrays += [
-            cgen.constant_declare(name+'_fmin', val=fmin),
+            cgen.constant_declare(name+'_fmin', val=fmin, dtype=number_dtype(fmin)),
         ]
 
     out = '\n\n'.join(arrays)
-- 
2.43.0


From 638340abc2d6a2051707390e5fce29824c8a34ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 03/83] fix: cgen: an identifier cannot end with a newline

---
 emlearn/cgen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/cgen.py b/emlearn/cgen.py
index c4132ad..d19c618 100644
--- a/emlearn/cgen.py
+++ b/emlearn/cgen.py
@@ -9,7 +9,7 @@ import re
 
 import numpy
 
-VALID_IDENTIFIER_REGEX = r'^[_a-zA-Z][_a-zA-Z0-9]*$' # valid C identifiers
+VALID_IDENTIFIER_REGEX = r'^[_a-zA-Z][_a-zA-Z0-9]*\Z' # valid C identifiers
 from .creserved import RESERVED_WORDS
 
 from .fixedpoint import FixedPointFormat, from_float
-- 
2.43.0


From 415fd1d74fa93f677799c367660d856868c443bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:27 +0000
Subject: [PATCH 04/83] fix: trees: refuse child references that do not fit in
 int16_t

---
 emlearn/trees.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/trees.py b/emlearn/trees.py
index 1a7a763..026c7f1 100644
--- a/emlearn/trees.py
+++ b/emlearn/trees.py
@@ -288,7 +288,7 @@ def remove_duplicate_leaves(forest):
     return f
 
 
-def assert_valid_child(value, child_max = 2**15, child_min = -2**15):
+def assert_valid_child(value, child_max = 2**15-1, child_min = -2**15):
     assert value >= child_min, value
     assert value <= child_max, value
 
-- 
2.43.0


From 670653eb2c0189a32010385c247cbd2cc394f1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:27 +0000
Subject: [PATCH 05/83] fix: trees: refuse loadable models with more classes
 than supported

Prediction failed with an error code, which was then reported as a class.
---
 emlearn/trees.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/emlearn/trees.py b/emlearn/trees.py
index 026c7f1..073713b 100644
--- a/emlearn/trees.py
+++ b/emlearn/trees.py
@@ -768,6 +768,11 @@ class Wrapper:
         if self.n_features > max_features:
             raise ValueError(f"Maximum features exceeded. features={self.n_features} max={max_features}")
 
+        # EMTREES_MAX_CLASSES in eml_trees.h
+        max_classes = 30
+        if self.method == 'loadable' and self.n_classes > max_classes:
+            raise ValueError(f"Maximum classes exceeded. classes={self.n_classes} max={max_classes}")
+
         self._classifier = None # lazy-initialized by _build_classifier
 
     def _build_classifier(self):
@@ -794,9 +799,6 @@ class Wrapper:
                     features[i] = ({feature_dtype})values[i];
                 }}
                 const {return_type} out = {name}_predict(features, length);
-                if (out < 0) {{
-                    return -out;
-                }}
                 return out;
             }}""",
             f"""
-- 
2.43.0


From 8e9a1e50c8510b96c1133f5c8d8faff1178949cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:27 +0000
Subject: [PATCH 06/83] fix: trees: refuse leaf_bits that are not supported for
 the model type

---
 emlearn/trees.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/emlearn/trees.py b/emlearn/trees.py
index 073713b..8448cb9 100644
--- a/emlearn/trees.py
+++ b/emlearn/trees.py
@@ -739,6 +739,10 @@ class Wrapper:
         if leaf_bits > 0 and leaf_bits <= 8 and self.is_classifier:
             leaf = 'probabilities'
 
+        supported_leaf_bits = (0, 2, 3, 4, 5, 6, 7, 8) if self.is_classifier else (32, )
+        if leaf_bits not in supported_leaf_bits:
+            raise ValueError(f"Unsupported leaf_bits={leaf_bits} for {kind}. Supported: {supported_leaf_bits}")
+
         self.leaf_bits = leaf_bits
 
         if hasattr(estimator, 'estimators_'):
-- 
2.43.0


From e6b1f14f36f67b1bfcc795f60349d91eea811c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:27 +0000
Subject: [PATCH 07/83] fix: trees: predict a class also when all class
 proportions quantize to zero

---
 emlearn/eml_trees.h | 2 +-
 emlearn/trees.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/emlearn/eml_trees.h b/emlearn/eml_trees.h
index 531cd02..b595221 100644
--- a/emlearn/eml_trees.h
+++ b/emlearn/eml_trees.h
@@ -216,7 +216,7 @@ eml_trees_predict(const EmlTrees *forest, const int16_t *features, int8_t featur
     }
 
     int32_t most_voted_class = -1;
-    float most_voted_value = 0.0f;
+    float most_voted_value = -1.0f;
     for (int32_t i=0; i<n_classes; i++) {
         //printf("votes[%d]: %d\n", i, votes[i]);
         if (votes[i] > most_voted_value) {
diff --git a/emlearn/trees.py b/emlearn/trees.py
index 8448cb9..063cb2b 100644
--- a/emlearn/trees.py
+++ b/emlearn/trees.py
@@ -560,7 +560,7 @@ def generate_c_inlined(forest, name, n_features, n_classes=0, leaf_bits=0, dtype
     
         // argmax over probabilities
         int32_t most_voted_class = -1;
-        float most_voted_proba = 0.0f;
+        float most_voted_proba = -1.0f;
         for (int32_t i=0; i<{n_classes}; i++) {{
 
             if (out[i] > most_voted_proba) {{
-- 
2.43.0


From 7fee7aa9be4dc81bc00b3bfe66cbb8765c6cb3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:27 +0000
Subject: [PATCH 08/83] fix: trees: CSV export of soft-voting and single-leaf
 trees, and of exact thresholds

---
 emlearn/trees.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/emlearn/trees.py b/emlearn/trees.py
index 063cb2b..4cb316c 100644
--- a/emlearn/trees.py
+++ b/emlearn/trees.py
@@ -925,7 +925,8 @@ class Wrapper:
             lines.append(f'c,{self.n_classes}')
             lines.append(f'lb,{self.leaf_bits}')
             for l in leaves:
-                lines.append(f'l,{l}')
+                values = ','.join(str(v) for v in numpy.atleast_1d(l))
+                lines.append(f'l,{values}')
             for r in roots:
                 lines.append(f'r,{r}')
 
@@ -935,7 +936,7 @@ class Wrapper:
                 left = encode_child(index, left_child)
                 right = encode_child(index, right_child)
 
-                serialized = f'n,{feature},{value.round(6)},{left},{right}'
+                serialized = f'n,{feature},{float(value)!r},{left},{right}'
                 return serialized
 
             for i, n in enumerate(nodes):
-- 
2.43.0


From df206f8c7b84e6dbd60ac4c188b6a114fca455fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:27 +0000
Subject: [PATCH 09/83] fix: trees: do not read regression leaves as unaligned
 floats

---
 emlearn/eml_trees.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/emlearn/eml_trees.h b/emlearn/eml_trees.h
index b595221..d0ca126 100644
--- a/emlearn/eml_trees.h
+++ b/emlearn/eml_trees.h
@@ -11,6 +11,7 @@
 #endif
 
 #include <stdint.h>
+#include <string.h>
 #include <math.h>
 #include <eml_common.h>
 
@@ -274,15 +275,15 @@ eml_trees_regress(const EmlTrees *forest,
     for (int32_t i=0; i<forest->n_trees; i++) {
         const int32_t leaf_number = eml_trees_predict_tree(forest, forest->tree_roots[i], features, features_length);        
         const int32_t leaf_offset = leaf_number * leaf_size;
-        const float *leaf_data = (float *)(forest->leaves + leaf_offset);
-        const float val = *leaf_data;
+        float val;
+        memcpy(&val, forest->leaves + leaf_offset, leaf_size); // may be unaligned
         sum += val;
     }
 
     out[0] = sum / forest->n_trees;
 
     EML_LOG_BEGIN("eml-trees-regress-end");
-    EML_LOG_ADD_INTEGER("output", out[0]);
+    EML_LOG_ADD_FLOAT("output", (double)out[0]);
     EML_LOG_END();
 
     return EmlOk;
-- 
2.43.0


From 62f9e8a769cc4f4dab5f7dc7c5d4d8276f896470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:27 +0000
Subject: [PATCH 10/83] fix: trees: check the number of features also for
 probabilities and regression

---
 emlearn/eml_trees.h | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/emlearn/eml_trees.h b/emlearn/eml_trees.h
index d0ca126..ee66c40 100644
--- a/emlearn/eml_trees.h
+++ b/emlearn/eml_trees.h
@@ -73,7 +73,7 @@ Returns an offset into the leaves structure
 */
 static int32_t
 eml_trees_predict_tree(const EmlTrees *forest, int32_t tree_root,
-                        const int16_t *features, int8_t features_length)
+                        const int16_t *features, int32_t features_length)
 {
     int32_t node_idx = tree_root;
 
@@ -117,13 +117,14 @@ eml_trees_outputs_proba(const EmlTrees *self)
 
 EmlError
 eml_trees_predict_proba(const EmlTrees *self,
-            const int16_t *features, int8_t features_length,
+            const int16_t *features, int32_t features_length,
             float *out, int32_t out_length)
 {
     EML_PRECONDITION(features, EmlUninitialized);
     EML_PRECONDITION(out, EmlUninitialized);
     const int32_t n_outputs = eml_trees_outputs_proba(self);
     EML_PRECONDITION(out_length == n_outputs, EmlSizeMismatch);
+    EML_PRECONDITION(features_length == self->n_features, EmlSizeMismatch);
 
     for (int i=0; i<out_length; i++) {
         out[i] = 0.0f;
@@ -191,7 +192,7 @@ eml_trees_predict_proba(const EmlTrees *self,
 * \return The class number, or -EmlTreesError on failure
 */
 int32_t
-eml_trees_predict(const EmlTrees *forest, const int16_t *features, int8_t features_length)
+eml_trees_predict(const EmlTrees *forest, const int16_t *features, int32_t features_length)
 {
     EML_LOG_BEGIN("eml-trees-predict-start");
     EML_LOG_ADD_INTEGER("classes", forest->n_classes);
@@ -250,8 +251,8 @@ eml_trees_predict(const EmlTrees *forest, const int16_t *features, int8_t featur
 */
 EmlError
 eml_trees_regress(const EmlTrees *forest,
-        const int16_t *features, int8_t features_length,
-        float *out, int8_t out_length)
+        const int16_t *features, int32_t features_length,
+        float *out, int32_t out_length)
 {
 
     EML_LOG_BEGIN("eml-trees-regress-start");
@@ -264,6 +265,10 @@ eml_trees_regress(const EmlTrees *forest,
         return EmlSizeMismatch;
     }
 
+    if (features_length != forest->n_features) {
+        return EmlSizeMismatch;
+    }
+
     if (forest->leaf_bits != 32) {
         // only majority vote supported for now
         return EmlUnsupported;
@@ -300,7 +305,7 @@ eml_trees_regress(const EmlTrees *forest,
 */
 float
 eml_trees_regress1(const EmlTrees *forest,
-        const int16_t *features, int8_t features_length)
+        const int16_t *features, int32_t features_length)
 {
     float out[1];
     EmlError err = eml_trees_regress(forest,
-- 
2.43.0


From d3f5f5017ca64c7a184955aac69a5cc67e66205d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:37 +0000
Subject: [PATCH 11/83] fix: compiled classifiers no longer share their
 executable

All models of one type were built to the same path, so converting a model
changed what earlier models predicted.
---
 emlearn/common.py | 7 +++++++
 emlearn/trees.py  | 4 ++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/emlearn/common.py b/emlearn/common.py
index 58a7983..cc3bc91 100644
--- a/emlearn/common.py
+++ b/emlearn/common.py
@@ -8,6 +8,7 @@ import os
 import sys
 import subprocess
 import platform
+import tempfile
 from distutils.ccompiler import new_compiler
 
 import numpy
@@ -166,8 +167,13 @@ class CompiledClassifier():
 
         if include_dir == None:
             include_dir = get_include_dir()
+        # own directory, so that models with the same name do not replace each other
+        os.makedirs(temp_dir, exist_ok=True)
+        temp_dir = tempfile.mkdtemp(dir=temp_dir)
+
         self.bin_path = build_classifier(cmodel, name,
                 include_dir=include_dir, temp_dir=temp_dir, func=call, test_function=test_function)
+        self.bin_path = os.path.abspath(self.bin_path)
 
         self.proba_bin_path = None
         if proba_call is not None:
@@ -175,6 +181,7 @@ class CompiledClassifier():
                     include_dir=include_dir, temp_dir=temp_dir,
                     func=proba_call, n_classes=n_classes,
                     test_function=test_function)
+            self.proba_bin_path = os.path.abspath(self.proba_bin_path)
 
         self._out_dtype = out_dtype
         self.n_classes = n_classes
diff --git a/emlearn/trees.py b/emlearn/trees.py
index 4cb316c..d398dc4 100644
--- a/emlearn/trees.py
+++ b/emlearn/trees.py
@@ -777,10 +777,10 @@ class Wrapper:
         if self.method == 'loadable' and self.n_classes > max_classes:
             raise ValueError(f"Maximum classes exceeded. classes={self.n_classes} max={max_classes}")
 
-        self._classifier = None # lazy-initialized by _build_classifier
+        self.classifier_ = None # lazy-initialized by _build_classifier
 
     def _build_classifier(self):
-        if self._classifier is not None:
+        if self.classifier_ is not None:
             return None
 
         name = 'mytree'
-- 
2.43.0


From 45ac086a50577e8adf15550cf961ef5867e04060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:37 +0000
Subject: [PATCH 12/83] fix: transport features and results of compiled
 classifiers without loss

Small values were rounded to zero, and rows over 2048 characters
were split into several rows.
---
 emlearn/common.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/emlearn/common.py b/emlearn/common.py
index cc3bc91..9a5e4f7 100644
--- a/emlearn/common.py
+++ b/emlearn/common.py
@@ -76,6 +76,10 @@ def build_classifier(cmodel, name, temp_dir,
     if n_classes:
         code = """
         #include "{def_file_name}"
+
+        // enough for any model to get its features on a single row
+        #define EML_CSV_BUFFER_LENGTH (1024*1024)
+        #define EML_CSV_VALUES_LENGTH (32*1024)
         #include <eml_test.h>
 
         #define N_CLASSES {n_classes}
@@ -85,7 +89,7 @@ def build_classifier(cmodel, name, temp_dir,
             {func}; // TODO: handle error
             for (int class_no=0; class_no<N_CLASSES; class_no++) {{
                 const float prob = outputs[class_no];
-                printf("%d,%d,%f\\n", row, class_no, (double)prob);
+                printf("%d,%d,%.9g\\n", row, class_no, (double)prob);
             }}
         }}
         int main() {{
@@ -96,10 +100,14 @@ def build_classifier(cmodel, name, temp_dir,
         # Trivial program that reads values on stdin, and returns classifications on stdout
         code = """
         #include "{def_file_name}"
+
+        // enough for any model to get its features on a single row
+        #define EML_CSV_BUFFER_LENGTH (1024*1024)
+        #define EML_CSV_VALUES_LENGTH (32*1024)
         #include <eml_test.h>
 
         static void classify(const float *values, int length, int row) {{
-            printf("%d,%f\\n", row, (double){func});
+            printf("%d,%.9g\\n", row, (double){func});
         }}
         int main() {{
             {test_function}(stdin, classify);
@@ -119,11 +127,11 @@ def build_classifier(cmodel, name, temp_dir,
 
     return bin_path
 
-def run_classifier(bin_path, data, out_dtype='int', float_precision=8):
+def run_classifier(bin_path, data, out_dtype='int'):
 
-    # Serialize input data as CSV
+    # Serialize input data as CSV, without loss of precision
     def serialize_value(v):
-        return '{:.{prec}f}'.format(v, prec=float_precision)
+        return repr(float(v))
 
     lines = []
     for row in data:
-- 
2.43.0


From f4e6ecc2928b6153fc6c289da2250780a26e4232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:14 +0000
Subject: [PATCH 13/83] fix: inference errors are raised in Python instead of
 reported as results

---
 emlearn/common.py  | 12 +++++++++---
 emlearn/eml_test.h |  4 ++++
 emlearn/trees.py   | 14 +++++++++++++-
 3 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/emlearn/common.py b/emlearn/common.py
index 9a5e4f7..ce95283 100644
--- a/emlearn/common.py
+++ b/emlearn/common.py
@@ -86,14 +86,17 @@ def build_classifier(cmodel, name, temp_dir,
         float outputs[N_CLASSES] = {{0.0}};
 
         static void classify_proba(const float *values, int length, int row) {{
-            {func}; // TODO: handle error
+            const int err = {func};
+            if (err != 0) {{
+                exit(1);
+            }}
             for (int class_no=0; class_no<N_CLASSES; class_no++) {{
                 const float prob = outputs[class_no];
                 printf("%d,%d,%.9g\\n", row, class_no, (double)prob);
             }}
         }}
         int main() {{
-            {test_function}(stdin, classify_proba);
+            return {test_function}(stdin, classify_proba);
         }}
         """.format(**locals())
     else:
@@ -110,7 +113,7 @@ def build_classifier(cmodel, name, temp_dir,
             printf("%d,%.9g\\n", row, (double){func});
         }}
         int main() {{
-            {test_function}(stdin, classify);
+            return {test_function}(stdin, classify);
         }}
         """.format(**locals())
 
@@ -199,6 +202,8 @@ class CompiledClassifier():
 
         out = run_classifier(self.bin_path, X, out_dtype=self._out_dtype)
         assert len(out) == len(X), out
+        if self._out_dtype == 'int' and min(out) < 0:
+            raise Exception(f'Prediction failed with error {min(out)}')
         return out
 
     def predict_proba(self, X):
@@ -212,6 +217,7 @@ class CompiledClassifier():
             return int(row), int(cls), float(prob)
 
         result = run_classifier(self.proba_bin_path, X, out_dtype=convert_out)
+        assert len(result) == len(X)*self.n_classes, result
         out = numpy.empty(shape=(len(X), self.n_classes))
         for i, (row, cls, prob) in enumerate(result):
             out[row][cls] = prob
diff --git a/emlearn/eml_test.h b/emlearn/eml_test.h
index 856b431..410a674 100644
--- a/emlearn/eml_test.h
+++ b/emlearn/eml_test.h
@@ -62,6 +62,10 @@ eml_test_read_csv(FILE *fp, EmlCsvCallback row_callback) {
 
     while(fgets(buffer, EML_CSV_BUFFER_LENGTH, fp))
     {
+        if (strchr(buffer, '\n') == NULL && !feof(fp)) {
+            return EmlSizeMismatch; // row did not fit in buffer
+        }
+
         int value_no = 0;
         const EmlError e = eml_test_parse_csv_line(buffer, values, EML_CSV_VALUES_LENGTH, &value_no);
         EML_CHECK_ERROR(e);
diff --git a/emlearn/trees.py b/emlearn/trees.py
index d398dc4..c0b05bd 100644
--- a/emlearn/trees.py
+++ b/emlearn/trees.py
@@ -799,6 +799,9 @@ class Wrapper:
             predict_wrapper(const float *values, int length) {{
                 // Convert to whatever is needed for inline
                 {feature_dtype} features[{n_features}];
+                if (length != {n_features}) {{
+                    return -1;
+                }}
                 for (int i=0; i<length; i++) {{
                     features[i] = ({feature_dtype})values[i];
                 }}
@@ -810,6 +813,9 @@ class Wrapper:
             predict_proba_wrapper(const float *values, int length, float *outputs, int n_outputs) {{
                 // Convert to whatever is needed for inline
                 {feature_dtype} features[{n_features}];
+                if (length != {n_features}) {{
+                    return -1;
+                }}
                 for (int i=0; i<length; i++) {{
                     features[i] = ({feature_dtype})values[i];
                 }}
@@ -824,10 +830,14 @@ class Wrapper:
 
         regression_functions = [
             f"""
+            #include <math.h>
             {return_type}
             regress_wrapper(const float *values, int length) {{
                 // Convert to whatever is needed for inline
                 {feature_dtype} features[{n_features}];
+                if (length != {n_features}) {{
+                    return NAN;
+                }}
                 for (int i=0; i<length; i++) {{
                     features[i] = ({feature_dtype})values[i];
                 }}
@@ -867,7 +877,9 @@ class Wrapper:
         if self.is_classifier:
             predictions = self.classifier_.predict(X)
         else:
-            predictions = self.classifier_.regress(X)            
+            predictions = self.classifier_.regress(X)
+            if numpy.isnan(predictions).any():
+                raise Exception('Prediction failed')
 
         return predictions
 
-- 
2.43.0


From 7327aa026d84ccb966d2ff758a0b8337e19d397b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:10 +0000
Subject: [PATCH 14/83] fix: net: method='inline' generates and evaluates the
 inline code

The loadable code was used instead, as the inline code did not generate.
---
 emlearn/net.py                    | 6 ++++--
 emlearn/templates/net_float.jinja | 4 ++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/emlearn/net.py b/emlearn/net.py
index 8e06731..2a7804c 100644
--- a/emlearn/net.py
+++ b/emlearn/net.py
@@ -101,7 +101,9 @@ class Wrapper:
             raise ValueError(f"Unsupported return_type of '{self.return_type}'")
  
 
-    def save(self, name=None, file=None, inference=['loadable']):
+    def save(self, name=None, file=None, inference=None):
+        if inference is None:
+            inference = [self.inference_type]
         if name is None:
             if file is None:
                 raise ValueError('Either name or file must be provided')
@@ -173,7 +175,7 @@ def c_generate_layer_data(activations, weights, biases, prefix : str,
         if include_constants:
             activation_name = format_name(layer_no, 'activation')
             activation_func = c_activation_function(l_act)
-            add_declaration(cgen.constant_declare(activation_name, activation_func))
+            add_declaration(cgen.constant_declare(activation_name, activation_func, dtype='EmlNetActivationFunction'))
 
         # bias
         biases_name = format_name(layer_no, 'biases') 
diff --git a/emlearn/templates/net_float.jinja b/emlearn/templates/net_float.jinja
index 698f731..4a0609f 100644
--- a/emlearn/templates/net_float.jinja
+++ b/emlearn/templates/net_float.jinja
@@ -25,6 +25,10 @@ EmlError
     float *buffer1 = activations1;
     float *buffer2 = activations2;
 
+    if (in_length != {{ prefix }}_layer_0_input_length || buffer_length < {{ prefix }}_activations_length) {
+        return EmlSizeMismatch;
+    }
+
     // Copy input to working buffer
     for (int i=0; i<in_length; i++) {
         buffer1[i] = in[i];
-- 
2.43.0


From 9fd37c9a5c822b57cb17e3d97a38035f6f02a545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:10 +0000
Subject: [PATCH 15/83] fix: net: refuse models and options that inference does
 not support

---
 emlearn/net.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/emlearn/net.py b/emlearn/net.py
index 2a7804c..9779329 100644
--- a/emlearn/net.py
+++ b/emlearn/net.py
@@ -51,8 +51,11 @@ class Wrapper:
         if n_outputs == 1:
             n_outputs = 2
 
-        if self.use_fixedpoint and self.inference_type != 'inline':
-            raise NotImplementedError("Fixed-point only implemented with 'inline' inference type")
+        if self.use_fixedpoint:
+            raise NotImplementedError("Fixed-point inference is not implemented yet")
+
+        if self.inference_type == 'loadable' and len(self.weights) < 2:
+            raise ValueError("Model must have at least one hidden layer when using 'loadable' inference")
 
         name = 'mynet'
         if self.inference_type == 'loadable' and return_type == 'classifier':
@@ -96,7 +99,10 @@ class Wrapper:
         if self.return_type == 'classifier':
             return self.classifier.predict(X)
         elif self.return_type == 'regressor':
-            return self.classifier.regress(X)
+            out = self.classifier.regress(X)
+            if numpy.isnan(out).any():
+                raise Exception('Prediction failed. Only models with a single output are supported')
+            return out
         else:
             raise ValueError(f"Unsupported return_type of '{self.return_type}'")
  
@@ -335,6 +341,9 @@ def convert_sklearn_mlp(model, method, **kwargs):
     if (model.n_layers_ < 3):
         raise ValueError("Model must have at least one hidden layer")
 
+    if type(model).__name__ == 'MLPClassifier' and model.out_activation_ == 'logistic' and model.n_outputs_ > 1:
+        raise ValueError("Multilabel classification is not supported")
+
     weights = model.coefs_
     biases = model.intercepts_
     activations = [model.activation]*(len(weights)-1) + [ model.out_activation_ ]
-- 
2.43.0


From 132b84351e5ab07bbbe4255546ec05b37ca1eb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:10 +0000
Subject: [PATCH 16/83] fix: net: probabilities of two-output networks were in
 wrong order

---
 emlearn/eml_net.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/eml_net.h b/emlearn/eml_net.h
index 2cd984c..54796d3 100644
--- a/emlearn/eml_net.h
+++ b/emlearn/eml_net.h
@@ -303,7 +303,7 @@ eml_net_predict_proba(EmlNet *model, const float *features, int32_t features_len
 
     float proba_sum = 0.0f;
 
-    if (n_outputs == 2) {
+    if (eml_net_outputs(model) == 1) {
         out[1] = model->activations2[0];
         out[0] = 1.0f - out[1];
         proba_sum = out[0] + out[1];
-- 
2.43.0


From d5aec8314d0b3ed2c19c234fc5bdef13681aaf5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:10 +0000
Subject: [PATCH 17/83] fix: net: check for missing features, buffers and
 layers before using them

---
 emlearn/eml_net.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/emlearn/eml_net.h b/emlearn/eml_net.h
index 54796d3..36b6d3f 100644
--- a/emlearn/eml_net.h
+++ b/emlearn/eml_net.h
@@ -249,6 +249,7 @@ EmlError
 eml_net_infer(EmlNet *model, const float *features, int32_t features_length)
 {
     EML_PRECONDITION(eml_net_valid(model), EmlUninitialized);
+    EML_PRECONDITION(features, EmlUninitialized);
     EML_PRECONDITION(model->n_layers >= 2, EmlUnsupported);
     EML_PRECONDITION(features_length == model->layers[0].n_inputs, EmlSizeMismatch);
     EML_PRECONDITION(model->activations_length >= eml_net_find_largest_layer(model), EmlSizeMismatch);
@@ -296,6 +297,7 @@ eml_net_predict_proba(EmlNet *model, const float *features, int32_t features_len
     EML_PRECONDITION(eml_net_valid(model), EmlUninitialized);
     EML_PRECONDITION(features, EmlUninitialized);
     EML_PRECONDITION(out, EmlUninitialized);
+    EML_PRECONDITION(model->n_layers >= 2, EmlUnsupported);
     const int32_t n_outputs = eml_net_outputs_proba(model);
     EML_PRECONDITION(out_length == n_outputs, EmlSizeMismatch);
 
@@ -364,6 +366,8 @@ eml_net_predict(EmlNet *model, const float *features, int32_t features_length) {
 EmlError
 eml_net_regress(EmlNet *model, const float *features, int32_t features_length, float *out, int32_t out_length)
 {
+    EML_PRECONDITION(eml_net_valid(model), EmlUninitialized);
+    EML_PRECONDITION(model->n_layers >= 2, EmlUnsupported);
     EML_PRECONDITION(out, EmlUninitialized);
     const int32_t n_outputs = eml_net_outputs(model);
     EML_PRECONDITION(out_length == n_outputs, EmlSizeMismatch);
-- 
2.43.0


From b935fd8ebf3848b3cdc0b21c1b4aac740f8380d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:17 +0000
Subject: [PATCH 18/83] fix: neighbors: distances of large feature values
 overflowed

---
 emlearn/eml_neighbors.h | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/emlearn/eml_neighbors.h b/emlearn/eml_neighbors.h
index c90a318..c3a3275 100644
--- a/emlearn/eml_neighbors.h
+++ b/emlearn/eml_neighbors.h
@@ -26,19 +26,18 @@ in order to support on-device learning.
 #endif // EML_NEIGHBORS_MAX_CLASSES
 
 
-int32_t eml_isqrt(int32_t x)
+uint32_t eml_isqrt(uint64_t x)
 {
-    int32_t q = 1, r = 0;
+    uint64_t q = 1, r = 0;
     while (q <= x) {
         q <<= 2;
     }
     while (q > 1) {
-        int32_t t;
         q >>= 2;
-        t = x - r - q;
+        const uint64_t t = r + q;
         r >>= 1;
-        if (t >= 0) {
-            x = t;
+        if (x >= t) {
+            x -= t;
             r += q;
         }
     }
@@ -48,15 +47,12 @@ int32_t eml_isqrt(int32_t x)
 uint32_t
 eml_distance_euclidean_int16(const int16_t *a, const int16_t *b, int length)
 {
-    // FIXME: test this with large values
-    uint32_t ret = 0;
+    uint64_t ret = 0;
     for (int i=0; i<length; i++) {
-        const int32_t diff = a[i] - b[i];        
-        const int32_t d = diff * diff;
-        ret += d;
+        const int64_t diff = (int64_t)a[i] - b[i];
+        ret += diff * diff;
     }
-    ret = eml_isqrt(ret); 
-    return ret;
+    return eml_isqrt(ret);
 }
 
 /** @typedef EmlNeighborsDistanceItem
-- 
2.43.0


From 86fb77248ce43fb554f9c6dfc9a56c8d17a1d821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:17 +0000
Subject: [PATCH 19/83] fix: neighbors: refuse models with more classes than
 supported

---
 emlearn/neighbors.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/emlearn/neighbors.py b/emlearn/neighbors.py
index 42368c2..c34a1f6 100644
--- a/emlearn/neighbors.py
+++ b/emlearn/neighbors.py
@@ -43,6 +43,12 @@ class Wrapper:
         self.fit_data_X = estimator._fit_X
         self.fit_data_Y = estimator._y
         self.n_neighbors = estimator.n_neighbors
+
+        # EML_NEIGHBORS_MAX_CLASSES in eml_neighbors.h
+        max_classes = 10
+        if numpy.max(self.fit_data_Y) >= max_classes:
+            raise ValueError(f"Maximum classes exceeded. max={max_classes}")
+
         self.inference = inference
 
         name = 'mymodel'
@@ -67,6 +73,9 @@ class Wrapper:
 
                     // Convert to integer
                     int16_t features[{n_features}];
+                    if (length != {n_features}) {{
+                        return -EmlSizeMismatch;
+                    }}
                     for (int i=0; i<length; i++) {{
                         features[i] = (int16_t)values[i];
                     }}
-- 
2.43.0


From 77c1466632ae83d691ec7c274cfd4f1850a7e1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:17 +0000
Subject: [PATCH 20/83] fix: distance: wrong number of features was reported as
 an outlier

---
 emlearn/distance.py    | 6 ++++++
 emlearn/eml_distance.h | 4 ++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/emlearn/distance.py b/emlearn/distance.py
index 1b6fa8c..ef2a966 100644
--- a/emlearn/distance.py
+++ b/emlearn/distance.py
@@ -56,6 +56,7 @@ def generate_code(means, precision, offset, name='my_elliptic', modifiers='stati
     // This code is generated by emlearn
 
     #include <eml_distance.h>
+    #include <math.h>
     '''
 
     pre = '\n\n'.join([
@@ -83,6 +84,9 @@ def generate_code(means, precision, offset, name='my_elliptic', modifiers='stati
         float dist = 0.0;
         const int class = eml_elliptic_envelope_predict(&{classifier_name},
                                 features, n_features, &dist);
+        if (class < 0) {{
+            return NAN;
+        }}
         return dist; 
     }}
     '''
@@ -115,6 +119,8 @@ class Wrapper:
         p = numpy.array([ dist(x) for x in X ])
 
         predictions = numpy.array(self.classifier_.predict(X))
+        if numpy.isnan(predictions).any():
+            raise Exception('Prediction failed')
         return predictions
 
     def score_samples(self, X):
diff --git a/emlearn/eml_distance.h b/emlearn/eml_distance.h
index 61b9fab..406b23c 100644
--- a/emlearn/eml_distance.h
+++ b/emlearn/eml_distance.h
@@ -57,14 +57,14 @@ typedef struct _EmlEllipticEnvelope {
 * \param features The input data values
 * \param features Length of input data array
 * \param out_dist Return location for the continious outlier score (Mahalanobis distance)
-* \return 1 for outlier, 0 for inlier
+* \return 1 for outlier, 0 for inlier, or -EmlError on failure
 */
 int
 eml_elliptic_envelope_predict(const EmlEllipticEnvelope *self,
                             const float *features, int n_features,
                             float *out_dist)
 {
-    EML_PRECONDITION(n_features == self->n_features, EmlSizeMismatch);
+    EML_PRECONDITION(n_features == self->n_features, -EmlSizeMismatch);
 
     const float dist = \
         eml_mahalanobis_distance_squared(features, self->means, self->precision, n_features);
-- 
2.43.0


From 021f354d1221e003a7d1c95344902b6ce2a68af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:17 +0000
Subject: [PATCH 21/83] fix: fixedpoint: multiplication and division lost
 precision or wrapped around

---
 emlearn/eml_fixedpoint.h | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/emlearn/eml_fixedpoint.h b/emlearn/eml_fixedpoint.h
index 3a29fe7..4c98fa6 100644
--- a/emlearn/eml_fixedpoint.h
+++ b/emlearn/eml_fixedpoint.h
@@ -2,6 +2,8 @@
 #ifndef EML_FIXEDPOINT_H
 #define EML_FIXEDPOINT_H
 
+#include <stdint.h>
+
 #ifdef __cplusplus
 extern "C" {
 #endif
@@ -30,18 +32,36 @@ typedef int32_t eml_q16_t;
 #define EML_Q16_TOFLOAT(x) (((float)(x)) / (1 << EML_Q16_FRACT_BITS))
 
 // Fixed-point math
-#define eml_q16_mul(x, y) ( ((x) >> EML_Q16_FRACT_BITS/2) * ((y)>> EML_Q16_FRACT_BITS/2) )
+static inline eml_q16_t
+eml_q16_saturate(int64_t x)
+{
+    if (x > INT32_MAX) {
+        return INT32_MAX;
+    } else if (x < INT32_MIN) {
+        return INT32_MIN;
+    }
+    return (eml_q16_t)x;
+}
+
+static inline eml_q16_t
+eml_q16_mul(eml_q16_t x, eml_q16_t y)
+{
+    return eml_q16_saturate(((int64_t)x * y) >> EML_Q16_FRACT_BITS);
+}
 
 static eml_q16_t
 eml_q16_div(eml_q16_t a, eml_q16_t b)
 {
-    int64_t temp = (int64_t)a << EML_Q16_FRACT_BITS;
+    if (b == 0) {
+        return (a >= 0) ? INT32_MAX : INT32_MIN;
+    }
+    int64_t temp = (int64_t)a * EML_Q16_ONE;
     if((temp >= 0 && b >= 0) || (temp < 0 && b < 0)) {   
         temp += b / 2;
     } else {
         temp -= b / 2;
     }
-    return (int32_t)(temp / b);
+    return eml_q16_saturate(temp / b);
 }
 
 #ifdef __cplusplus
-- 
2.43.0


From 6ace6814d0c732a34add7a7962ba4e69a6178764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:17 +0000
Subject: [PATCH 22/83] fix: bayes: more than 10 classes overflowed the stack,
 number of features was not checked

---
 emlearn/eml_bayes.h | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/emlearn/eml_bayes.h b/emlearn/eml_bayes.h
index 056d4f8..63062cc 100644
--- a/emlearn/eml_bayes.h
+++ b/emlearn/eml_bayes.h
@@ -113,11 +113,13 @@ eml_bayes_predict(EmlBayesModel *model, const float values[], int32_t values_len
    EML_PRECONDITION(values, -EmlUninitialized);
    EML_PRECONDITION(model->n_classes >= 2, -EmlUninitialized);
 
-   eml_q16_t class_probabilities[EML_MAX_CLASSES];
+   EML_PRECONDITION(values_length == model->n_features, -EmlSizeMismatch);
 
+   int64_t highest_prob = 0;
+   int32_t highest_idx = -EmlUnknownError;
    for (int class_idx = 0; class_idx<model->n_classes; class_idx++) {
 
-      eml_q16_t class_p = 0;
+      int64_t class_p = 0;
       for (int value_idx = 0; value_idx<values_length; value_idx++) {
          const int32_t summary_idx = class_idx*model->n_features + value_idx;
          EmlBayesSummary summary = model->summaries[summary_idx];
@@ -126,16 +128,10 @@ eml_bayes_predict(EmlBayesModel *model, const float values[], int32_t values_len
 
          class_p += plog;
       }
-      class_probabilities[class_idx] = class_p;
       //printf("class %d : %f\n", class_idx, p);
-   }
 
-   eml_q16_t highest_prob = class_probabilities[0];
-   int32_t highest_idx = 0;
-   for (int class_idx = 1; class_idx<model->n_classes; class_idx++) {
-      const eml_q16_t p = class_probabilities[class_idx]; 
-      if (p > highest_prob) {
-         highest_prob = p;
+      if (class_idx == 0 || class_p > highest_prob) {
+         highest_prob = class_p;
          highest_idx = class_idx;
       }
    }
-- 
2.43.0


From 73c5ea6a91fbd38172d7e0a02920bbd4295a7c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:17 +0000
Subject: [PATCH 23/83] fix: bayes: values far from the mean of a class
 overflowed

Inputs many standard deviations away got a high likelihood.
Models that cannot be represented are refused.
---
 emlearn/bayes.py    |  3 ++-
 emlearn/eml_bayes.h | 20 ++++++++++----------
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/emlearn/bayes.py b/emlearn/bayes.py
index 9bc8c2c..92d39bf 100644
--- a/emlearn/bayes.py
+++ b/emlearn/bayes.py
@@ -5,7 +5,6 @@ Gaussian Naive Bayes
 """
 
 import numpy
-numpy.seterr(all='raise')
 
 from . import common, cgen
 
@@ -102,6 +101,8 @@ class Wrapper(object):
             for feature_n in range(0, n_features):
                 mean = estimator.theta_[class_n,feature_n]
                 std = numpy.sqrt(variance[class_n,feature_n])
+                if abs(mean) >= 2**15 or std >= 2**15 or std < 2**-16:
+                    raise ValueError(f"Feature {feature_n} outside of fixed-point range. mean={mean} std={std}")
                 std_log2 = numpy.log2(std)
                 model[class_n,feature_n] = (mean, std, std_log2)
         self.model = model
diff --git a/emlearn/eml_bayes.h b/emlearn/eml_bayes.h
index 63062cc..355c9af 100644
--- a/emlearn/eml_bayes.h
+++ b/emlearn/eml_bayes.h
@@ -71,27 +71,27 @@ int32_t eml_bayes_log2fix (uint32_t x, size_t precision)
 }
 
 // log2 of normpdf, implemented using quadratic function
-static eml_q16_t
+// The result can be far outside what fits in 32 bits
+static int64_t
 eml_bayes_logpdf_std(eml_q16_t x)
 {
     const eml_q16_t a = EML_Q16_FROMFLOAT(-0.7213475204444817);
-    const eml_q16_t b = EML_Q16_FROMFLOAT(-1.0005845727355313e-15);
     const eml_q16_t c = EML_Q16_FROMFLOAT(-1.3257480647361592);
 
-    const eml_q16_t axx = eml_q16_mul(a, eml_q16_mul(x, x));
-    const eml_q16_t bx = eml_q16_mul(b, x);
-    const eml_q16_t y = axx + bx + c;
+    const int64_t xx = ((int64_t)x * x) >> EML_Q16_FRACT_BITS;
+    const int64_t axx = (a * xx) >> EML_Q16_FRACT_BITS;
+    const int64_t y = axx + c;
     return y;
 }
 
 // log2 of normal probability density function PDF
 // using a scaled/translated standard distribution
-static eml_q16_t
+static int64_t
 eml_bayes_logpdf(eml_q16_t x, eml_q16_t mean, eml_q16_t std, eml_q16_t stdlog2)
 {
-   const eml_q16_t xm = eml_q16_div((x - mean), std);
-   const eml_q16_t xx = (xm > 0) ? xm : -xm;
-   const eml_q16_t p = eml_bayes_logpdf_std(xx) - stdlog2;
+   const eml_q16_t diff = eml_q16_saturate((x > mean) ? (int64_t)x - mean : (int64_t)mean - x);
+   const eml_q16_t xx = eml_q16_div(diff, std);
+   const int64_t p = eml_bayes_logpdf_std(xx) - stdlog2;
    return p; 
 }
 
@@ -124,7 +124,7 @@ eml_bayes_predict(EmlBayesModel *model, const float values[], int32_t values_len
          const int32_t summary_idx = class_idx*model->n_features + value_idx;
          EmlBayesSummary summary = model->summaries[summary_idx];
          const eml_q16_t val = EML_Q16_FROMFLOAT(values[value_idx]);
-         const eml_q16_t plog = eml_bayes_logpdf(val, summary.mean, summary.std, summary.stdlog2);
+         const int64_t plog = eml_bayes_logpdf(val, summary.mean, summary.std, summary.stdlog2);
 
          class_p += plog;
       }
-- 
2.43.0


From b7915d9b5945f0ce99d3c482efb1116edc362a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:19 +0000
Subject: [PATCH 24/83] fix: mixture: scores and probabilities were rounded to
 6 decimals

---
 emlearn/mixture.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/emlearn/mixture.py b/emlearn/mixture.py
index e892e2a..63a6c63 100644
--- a/emlearn/mixture.py
+++ b/emlearn/mixture.py
@@ -148,7 +148,7 @@ def build_executable(wrapper, out_dir, output_type, name='gmm'):
         if (out != EmlOk) {{
             return -out; // error
         }}
-        printf("%f", score);
+        printf("%.9g", score);
         """
     elif output_type == 'predict_log_proba':
         output_code = f"""
@@ -158,7 +158,7 @@ def build_executable(wrapper, out_dir, output_type, name='gmm'):
             return -out; // error
         }}
         for (int i=0; i<n_components; i++) {{
-            printf("%.6f", output[i]);
+            printf("%.9g", output[i]);
             if (i != (n_components-1)) {{
                 printf(",");
             }}
@@ -173,7 +173,7 @@ def build_executable(wrapper, out_dir, output_type, name='gmm'):
             return -out_resp; // error
         }}
         for (int i=0; i<n_components; i++) {{
-                printf("%.6f", resp[i]);
+                printf("%.9g", resp[i]);
                 if (i != (n_components-1)) {{
                     printf(",");
                 }}
-- 
2.43.0


From de735b7a57279784538117ca89f408b539c4d69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:19 +0000
Subject: [PATCH 25/83] fix: mixture: check the number of features

---
 emlearn/eml_mixture.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/emlearn/eml_mixture.h b/emlearn/eml_mixture.h
index c19343d..700d80c 100644
--- a/emlearn/eml_mixture.h
+++ b/emlearn/eml_mixture.h
@@ -14,7 +14,7 @@ extern "C" {
 // numpy.log(2*numpy.pi)
 #define EML_LOG_2PI 1.8378770664093453
 
-bool
+float
 eml_dot_product(float *a, float *b, int n)
 {
     float sum = 0; 
@@ -157,7 +157,7 @@ print_array(const float *array, int n) {
 * \param values_length Input data values
 * \param probabilities Return location for probabilities. Must be length == n_components
 *
-* \return EmlOk on success, or error on failure
+* \return EmlOk on success, or -EmlError on failure
 */
 int32_t
 eml_mixture_predict_log_proba(EmlMixtureModel *model,
@@ -168,6 +168,7 @@ eml_mixture_predict_log_proba(EmlMixtureModel *model,
     EML_PRECONDITION(model, -EmlUninitialized);
     EML_PRECONDITION(values, -EmlUninitialized);
     EML_PRECONDITION(model->n_components > 0, -EmlUninitialized);
+    EML_PRECONDITION(values_length == model->n_features, -EmlSizeMismatch);
 
     float *out = probabilities;
     const int n_features = model->n_features;
@@ -218,15 +219,15 @@ eml_mixture_predict_log_proba(EmlMixtureModel *model,
                 break;
 
             case EmlCovarianceTied:
-                return EmlUnsupported;
+                return -EmlUnsupported;
                 break;
 
             case EmlCovarianceDiagonal:
-                return EmlUnsupported;
+                return -EmlUnsupported;
                 break;
 
             case EmlCovarianceSpherical:
-                return EmlUnsupported;
+                return -EmlUnsupported;
                 break;
 
         }
@@ -256,7 +257,7 @@ eml_mixture_predict_log_proba(EmlMixtureModel *model,
 * \param probabilities Return location for probabilities. Must be length == n_components
 * \param out_score Return location for the overall outlier score (single value).
 *
-* \return EmlOk on success, or error on failure
+* \return EmlOk on success, or -EmlError on failure
 */
 int32_t
 eml_mixture_score(EmlMixtureModel *model,
-- 
2.43.0


From baa348c7c3a9dec5631efac4435397be65714eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:19 +0000
Subject: [PATCH 26/83] fix: descriptions of EmlUnsupported and
 EmlUninitialized were swapped

---
 emlearn/eml_common.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/eml_common.h b/emlearn/eml_common.h
index a08c24d..c1021d4 100644
--- a/emlearn/eml_common.h
+++ b/emlearn/eml_common.h
@@ -31,8 +31,8 @@ static const char * const
 eml_error_strs[EmlErrors] = {
     "OK",
     "SizeMismatch",
-    "Uninitialized",
     "Unsupported",
+    "Uninitialized",
     "Postcondition failed",
     "Unknown error",
 };
-- 
2.43.0


From 34ec11c3d3889ddffe705b035ed354018904dd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:19 +0000
Subject: [PATCH 27/83] fix: array: refuse to copy rows between arrays with
 different value sizes

---
 emlearn/eml_array.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/emlearn/eml_array.h b/emlearn/eml_array.h
index 8782bfb..9549a71 100644
--- a/emlearn/eml_array.h
+++ b/emlearn/eml_array.h
@@ -202,6 +202,8 @@ eml_array_copy_rows(EmlArray *self, int start, const EmlArray *other)
     EML_PRECONDITION(start >= 0, EmlUnsupported);
     // must have same number of columns
     EML_PRECONDITION(other->dims[0] == self->dims[0], EmlSizeMismatch);
+    // must have values of same size
+    EML_PRECONDITION(other->value_size == self->value_size, EmlSizeMismatch);
     // other must not be too big
 
 //    fprintf(stderr, "start %d - %d- other_rows %d, self_rows %d \n",
-- 
2.43.0


From 4dbfde01f7c24f90360a3822ca8229c4ee1287ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:26 +0000
Subject: [PATCH 28/83] fix: csv: report failed and incomplete writes

---
 emlearn/eml_csv.h | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/emlearn/eml_csv.h b/emlearn/eml_csv.h
index 8a16bc8..eb2695b 100644
--- a/emlearn/eml_csv.h
+++ b/emlearn/eml_csv.h
@@ -49,6 +49,18 @@ typedef struct _EmlCsvWriter {
 
 
 // Writer
+
+// Write everything, or fail
+static EmlError
+eml_csv_writer_write_internal(EmlCsvWriter *self, const char *data, size_t length)
+{
+    const int written = self->write(self->stream, (const uint8_t *)data, length);
+    if (written < 0 || (size_t)written != length) {
+        return EmlUnknownError;
+    }
+    return EmlOk;
+}
+
 EmlError
 eml_csv_writer_write_header(EmlCsvWriter *self, const char **columns, size_t n_columns)
 {
@@ -63,14 +75,14 @@ eml_csv_writer_write_header(EmlCsvWriter *self, const char **columns, size_t n_c
     for (int i=0; i<data_length; i++) {
         const char *name = columns[i];
         const int length = strlen(name);
-        self->write(self->stream, (uint8_t *)name, length);
+        EML_CHECK_ERROR(eml_csv_writer_write_internal(self, name, length));
         const bool is_last = (i == data_length-1);
         if (!is_last) {
-            self->write(self->stream, (uint8_t *)delimiter, 1);
+            EML_CHECK_ERROR(eml_csv_writer_write_internal(self, delimiter, 1));
         }
     }
 
-    self->write(self->stream, (uint8_t *)endline, 1);
+    EML_CHECK_ERROR(eml_csv_writer_write_internal(self, endline, 1));
 
     return EmlOk;
 }
@@ -86,7 +98,7 @@ eml_csv_writer_write_data(EmlCsvWriter *self, const float *data, size_t data_len
     const int max = EML_CSV_FLOAT_MAXSIZE;
     for (int i=0; i<data_length; i++) {
         int written = snprintf(buf, max, EML_CSV_FLOAT_FORMAT, data[i]);
-        if (written >= max) {
+        if (written < 0 || written >= max) {
             return EmlUnsupported;
         }
         const bool is_last = (i == data_length-1);
@@ -94,9 +106,9 @@ eml_csv_writer_write_data(EmlCsvWriter *self, const float *data, size_t data_len
             buf[written] = (EML_CSV_DELIMITER)[0];
             written += 1;
         }
-        self->write(self->stream, (uint8_t *)buf, written);
+        EML_CHECK_ERROR(eml_csv_writer_write_internal(self, buf, written));
     }
-    self->write(self->stream, (uint8_t *)endline, 1);
+    EML_CHECK_ERROR(eml_csv_writer_write_internal(self, endline, 1));
 
     return EmlOk;
 }
-- 
2.43.0


From d484fd69477425f0ed47836df8fe48d6606f91d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:37 +0000
Subject: [PATCH 29/83] fix: csv: report read errors, overlong lines and short
 reads instead of altering data

---
 emlearn/eml_csv.h | 60 ++++++++++++++++++++++++++++++++---------------
 1 file changed, 41 insertions(+), 19 deletions(-)

diff --git a/emlearn/eml_csv.h b/emlearn/eml_csv.h
index eb2695b..2e5ce74 100644
--- a/emlearn/eml_csv.h
+++ b/emlearn/eml_csv.h
@@ -125,25 +125,40 @@ eml_csv_reader_read_internal(EmlCsvReader *self,
 
     // Copy the (potential header) into our buffer
     // We will return pointers into this buffer
-    const size_t read_length = \
-        self->read(self->stream, (uint8_t *)buffer, buffer_length);
-
-    // Find start of data / end-of-header
-    // int data_start = -1; // XXX: why unused?
+    // The stream may provide less data than asked for. Only 0 is end-of-file
+    size_t read_length = 0;
 
     // Find each column
-    int column_idx = 0;
-    int column_start_offset = 0;
-    int offset = -1;
-    for (offset=0; offset<read_length; offset++) {
+    size_t column_idx = 0;
+    size_t column_start_offset = 0;
+    size_t offset = 0;
+    while (true) {
+
+        if (offset == read_length) {
+            if (read_length == buffer_length) {
+                // line does not fit in buffer
+                return EmlSizeMismatch;
+            }
+
+            const int read_status = \
+                self->read(self->stream, (uint8_t *)buffer+read_length, buffer_length-read_length);
+            if (read_status < 0 || (size_t)read_status > buffer_length-read_length) {
+                return EmlUnknownError;
+            }
+            read_length += read_status;
+        }
+
+        const bool end_of_file = (offset == read_length);
+        if (end_of_file && offset == 0) {
+            // no more data
+            break;
+        }
 
         if (column_idx >= columns_length) {
-            printf("parse-too-many-columns read=%d max=%lld \n",
-                column_idx, (long long int)columns_length);
             return EmlUnknownError;
         }
 
-        const char c = buffer[offset];
+        const char c = end_of_file ? (EML_CSV_EOL)[0] : buffer[offset];
         if (c == (EML_CSV_DELIMITER)[0]) {
             // Keep a pointer to start of this column
             columns[column_idx] = buffer+column_start_offset;
@@ -155,13 +170,16 @@ eml_csv_reader_read_internal(EmlCsvReader *self,
         } else if (c == (EML_CSV_EOL)[0]) {
             // Keep a pointer to start of this column
             columns[column_idx] = buffer+column_start_offset;
-            column_start_offset = offset+1;
             column_idx += 1;
             // NULL terminate previous string
             buffer[offset] = '\0';
+            // Newline is optional on the last line
+            offset += end_of_file ? 0 : 1;
 
             break;
         }
+
+        offset += 1;
     }
 
     *out_columns = column_idx;
@@ -182,12 +200,16 @@ eml_csv_reader_read_header(EmlCsvReader *self,
     EmlError read_err = eml_csv_reader_read_internal(self, \
         buffer, buffer_length, columns, columns_length, &columns_read, &characters_read);
     EML_CHECK_ERROR(read_err);
+    if (columns_read == 0) {
+        // no header to be read
+        return EmlUnknownError;
+    }
 
     // Rembember number of columns
     self->n_columns = columns_read;
 
     // Seek to start of data (after end of header)
-    self->stream_location = characters_read+1;
+    self->stream_location = characters_read;
     const int seek_status = self->seek(self->stream, self->stream_location);
     if (seek_status != 0) {
         return EmlUnknownError;
@@ -202,7 +224,7 @@ eml_csv_reader_read_data(EmlCsvReader *self,
         char *buffer, size_t buffer_length,
         char **columns, size_t columns_length)
 {
-    EML_PRECONDITION(columns_length >= self->n_columns, EmlSizeMismatch);
+    EML_PRECONDITION(columns_length >= self->n_columns, -EmlSizeMismatch);
 
     int columns_read = 0;
     int characters_read = 0;
@@ -213,12 +235,12 @@ eml_csv_reader_read_data(EmlCsvReader *self,
         return -EmlUnknownError;
     }
 
-    if (characters_read == 0) {
-        // EOF presumably
+    if (columns_read == 0) {
+        // EOF
         return 0;
     }
 
-    if (columns_read != self->n_columns) {
+    if ((size_t)columns_read != self->n_columns) {
 #if 0
         printf("uncorrect-columns read=%d \n", columns_read);
 #endif
@@ -226,7 +248,7 @@ eml_csv_reader_read_data(EmlCsvReader *self,
     }
 
     // Seek to start of next line
-    self->stream_location += characters_read+1;
+    self->stream_location += characters_read;
     const int seek_status = self->seek(self->stream, self->stream_location);
     if (seek_status != 0) {
         return -EmlUnknownError;
-- 
2.43.0


From a08d2e0e7afcd451d9bde23f0fcba5d0b64ca48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:15 +0000
Subject: [PATCH 30/83] fix: array: initialization that fails must not change
 the array

---
 emlearn/eml_array.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/emlearn/eml_array.h b/emlearn/eml_array.h
index 9549a71..f9df854 100644
--- a/emlearn/eml_array.h
+++ b/emlearn/eml_array.h
@@ -50,8 +50,17 @@ eml_array_init_full(EmlArray *self,
     EML_PRECONDITION(n_dims >= 1, EmlSizeMismatch);
     EML_PRECONDITION(dimensions[0] >= 1, EmlSizeMismatch);
 
-    const size_t buffer_needed = eml_storage_size_array(n_dims, dimensions, value_size);
-    EML_PRECONDITION(buffer_needed <= buffer_length, EmlSizeMismatch);
+    EML_PRECONDITION(value_size >= 1, EmlSizeMismatch);
+
+    // Check everything before changing the array. The total size must not overflow
+    size_t values_max = buffer_length / value_size;
+    for (int d=0; d<n_dims; d++) {
+        EML_PRECONDITION(dimensions[d] >= 0, EmlSizeMismatch);
+        if (dimensions[d] > 0) {
+            EML_PRECONDITION((size_t)dimensions[d] <= values_max, EmlSizeMismatch);
+            values_max = values_max / dimensions[d];
+        }
+    }
 
     /* Set dimensions */
     for (int d=0; d<EML_ARRAY_MAX_DIMS; d++) {
@@ -61,7 +70,6 @@ eml_array_init_full(EmlArray *self,
     self->n_dims = n_dims;
     for (int d=0; d<n_dims; d++) {
         self->dims[d] = dimensions[d];
-        EML_PRECONDITION(self->dims[d] >= 0, EmlSizeMismatch);
     }
 
     self->value_size = value_size;
-- 
2.43.0


From 44dde76305173c0df3b3884c1647260ceac8b439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:15 +0000
Subject: [PATCH 31/83] fix: array: append is not implemented, do not report
 success

---
 emlearn/eml_array.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/emlearn/eml_array.h b/emlearn/eml_array.h
index f9df854..637824c 100644
--- a/emlearn/eml_array.h
+++ b/emlearn/eml_array.h
@@ -156,9 +156,10 @@ eml_array_sum(EmlArray *self, float *out_sum)
 EmlError
 eml_array_append(EmlArray *self, EmlArray *other)
 {
-    EML_PRECONDITION(self->n_dims == 2, EmlUnsupported);
-
-    return EmlOk;
+    // FIXME: not implemented
+    (void)self;
+    (void)other;
+    return EmlUnsupported;
 }
 
 EmlError
-- 
2.43.0


From c33263be9c6731d9182e1cbc3cc6a3ae37be9f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:15 +0000
Subject: [PATCH 32/83] fix: array: integer overflow in range checks

---
 emlearn/eml_array.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/emlearn/eml_array.h b/emlearn/eml_array.h
index 637824c..888dcb6 100644
--- a/emlearn/eml_array.h
+++ b/emlearn/eml_array.h
@@ -112,7 +112,7 @@ eml_array_data_2d(EmlArray *self, int col, int row)
     if (!(col >= 0)) { return NULL; }
     if (!(row >= 0)) { return NULL; }
 
-    const int offset = (row * self->dims[0]) + col;
+    const size_t offset = ((size_t)row * self->dims[0]) + col;
     void *data = self->data + (self->value_size * offset);
 
     return data;
@@ -168,10 +168,10 @@ eml_array_shift_rows(EmlArray *self, int shift)
     const int rows = self->dims[1];
     EML_PRECONDITION(self->n_dims == 2, EmlUnsupported);
     // trying to shift more than the size of buffer is likely an error
-    EML_PRECONDITION(abs(shift) <= rows, EmlSizeMismatch);
+    EML_PRECONDITION(shift >= -rows && shift <= rows, EmlSizeMismatch);
     EML_PRECONDITION(shift <= 0, EmlUnsupported); // TODO: support also forward shifts
 
-    const size_t row_size = self->value_size * self->dims[0];
+    const size_t row_size = (size_t)self->value_size * self->dims[0];
 
 #if 0
     EML_LOG_BEGIN("eml_array_shift_rows_begin");
@@ -217,7 +217,8 @@ eml_array_copy_rows(EmlArray *self, int start, const EmlArray *other)
 
 //    fprintf(stderr, "start %d - %d- other_rows %d, self_rows %d \n",
 //        start, start+other->dims[1], other->dims[1], self->dims[1]);
-    EML_PRECONDITION((start + other->dims[1]) <= self->dims[1], EmlSizeMismatch);
+    EML_PRECONDITION(other->dims[1] <= self->dims[1], EmlSizeMismatch);
+    EML_PRECONDITION(start <= self->dims[1] - other->dims[1], EmlSizeMismatch);
 
 
     const size_t row_size = self->value_size * self->dims[0];
-- 
2.43.0


From a43b5cae2b09df6141d68618caca6fc11b54fff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:38 +0000
Subject: [PATCH 33/83] fix: headers can be included on their own, repeatedly,
 and from C++

---
 emlearn/eml_csv.h       | 4 ++++
 emlearn/eml_fileio.h    | 9 ++++++---
 emlearn/eml_io.h        | 3 +++
 emlearn/eml_mixture.h   | 6 +++---
 emlearn/eml_neighbors.h | 4 ++++
 emlearn/eml_quantizer.h | 5 +++++
 6 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/emlearn/eml_csv.h b/emlearn/eml_csv.h
index 2e5ce74..3fdc2f4 100644
--- a/emlearn/eml_csv.h
+++ b/emlearn/eml_csv.h
@@ -4,6 +4,9 @@
 // Not intended to parse every wierd "csv" like thing out there
 // Just the well-formed thing, that can be produced from typical PyData etc tools
 
+#ifndef EML_CSV_H
+#define EML_CSV_H
+
 #include <eml_common.h>
 #include <eml_io.h>
 
@@ -257,3 +260,4 @@ eml_csv_reader_read_data(EmlCsvReader *self,
     return columns_read;
 }
 
+#endif // EML_CSV_H
diff --git a/emlearn/eml_fileio.h b/emlearn/eml_fileio.h
index 3e3410e..d966e3f 100644
--- a/emlearn/eml_fileio.h
+++ b/emlearn/eml_fileio.h
@@ -9,6 +9,9 @@ Useful together with EmlCsvReader / EmlCsvWriter and related.
 #ifndef EML_FILEIO_H
 #define EML_FILEIO_H
 
+#include <stddef.h>
+#include <stdint.h>
+
 #ifdef __cplusplus
 extern "C" {
 #endif
@@ -20,7 +23,7 @@ extern "C" {
 */
 int eml_fileio_write(void *context, const uint8_t *buffer, size_t size)
 {
-    FILE* fptr = context;
+    FILE* fptr = (FILE *)context;
     return fwrite(buffer, 1, size, fptr);
 }
 
@@ -29,7 +32,7 @@ int eml_fileio_write(void *context, const uint8_t *buffer, size_t size)
 */
 int eml_fileio_read(void *context, uint8_t *buffer, size_t size)
 {
-    FILE* fptr = context;
+    FILE* fptr = (FILE *)context;
     return fread(buffer, 1, size, fptr);
 }
 
@@ -38,7 +41,7 @@ int eml_fileio_read(void *context, uint8_t *buffer, size_t size)
 */
 int eml_fileio_seek(void *context, size_t position)
 {
-    FILE* fptr = context;
+    FILE* fptr = (FILE *)context;
     return fseek(fptr, position, SEEK_SET);
 }
 
diff --git a/emlearn/eml_io.h b/emlearn/eml_io.h
index 2c9a089..483c731 100644
--- a/emlearn/eml_io.h
+++ b/emlearn/eml_io.h
@@ -2,6 +2,9 @@
 #ifndef EML_IO_H
 #define EML_IO_H
 
+#include <stddef.h>
+#include <stdint.h>
+
 #ifdef __cplusplus
 extern "C" {
 #endif
diff --git a/emlearn/eml_mixture.h b/emlearn/eml_mixture.h
index 700d80c..eff5aa2 100644
--- a/emlearn/eml_mixture.h
+++ b/emlearn/eml_mixture.h
@@ -271,7 +271,7 @@ eml_mixture_score(EmlMixtureModel *model,
     EML_PRECONDITION(model->n_components > 0, -EmlUninitialized);
 
 
-    EmlError status = \
+    int32_t status = \
         eml_mixture_predict_log_proba(model, values, values_length, probabilities);
     if (status != EmlOk) {
         return status;
@@ -280,7 +280,7 @@ eml_mixture_score(EmlMixtureModel *model,
     float score;
     status = eml_logsumexp(probabilities, model->n_components, &score);
     if (status != EmlOk) {
-        return status;
+        return -status;
     }
 
     *out_score = score;
@@ -296,7 +296,7 @@ int32_t eml_mixture_predict_proba(EmlMixtureModel *model,
     EML_PRECONDITION(values, -EmlUninitialized);
     EML_PRECONDITION(model->n_components > 0, -EmlUninitialized);
 
-    EmlError status = \
+    int32_t status = \
         eml_mixture_score(model, values, values_length, probabilities, out_score);
     if (status != EmlOk) {
         return status;
diff --git a/emlearn/eml_neighbors.h b/emlearn/eml_neighbors.h
index c3a3275..fc10d81 100644
--- a/emlearn/eml_neighbors.h
+++ b/emlearn/eml_neighbors.h
@@ -9,6 +9,9 @@ Supports dynamic growth of the model data,
 in order to support on-device learning.
 */
 
+#ifndef EML_NEIGHBORS_H
+#define EML_NEIGHBORS_H
+
 #include <eml_common.h>
 #include <eml_log.h>
 #include <eml_qsort.h>
@@ -281,3 +284,4 @@ eml_neighbors_predict(EmlNeighborsModel *self,
     return EmlOk;
 }
 
+#endif // EML_NEIGHBORS_H
diff --git a/emlearn/eml_quantizer.h b/emlearn/eml_quantizer.h
index 2ce3d60..ed1d455 100644
--- a/emlearn/eml_quantizer.h
+++ b/emlearn/eml_quantizer.h
@@ -2,6 +2,11 @@
 #ifndef EML_QUANTIZER_H
 #define EML_QUANTIZER_H
 
+#include <eml_common.h>
+
+#include <math.h>
+#include <stdint.h>
+
 #ifdef __cplusplus
 extern "C" {
 #endif
-- 
2.43.0


From e85e7262afbc6ae9fe3e26d7236028f541f8dbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:07 +0000
Subject: [PATCH 34/83] fix: audio: mel filters had wrong weight at their peak

---
 emlearn/eml_audio.h | 23 ++++++-----------------
 1 file changed, 6 insertions(+), 17 deletions(-)

diff --git a/emlearn/eml_audio.h b/emlearn/eml_audio.h
index ef3e262..887fbc2 100644
--- a/emlearn/eml_audio.h
+++ b/emlearn/eml_audio.h
@@ -96,7 +96,6 @@ eml_audio_melspec(EmlAudioMel mel, EmlVector spec, EmlVector mels) {
     // Note: no normalization
     for (int m=1; m<mel.n_mels+1; m++) {
         const int left = mel_bin(mel, m-1);
-        const int center = mel_bin(mel, m);
         const int right = mel_bin(mel, m+1);
 
         if (left < 0) {
@@ -109,25 +108,15 @@ eml_audio_melspec(EmlAudioMel mel, EmlVector spec, EmlVector mels) {
         const float fdifflow = eml_audio_mel_center(mel, m) - eml_audio_mel_center(mel, m-1);
         const float fdiffupper = eml_audio_mel_center(mel, m+1) - eml_audio_mel_center(mel, m);
 
-        //fprintf(stderr, "mel %d:(%d, %d, %d) \n", m, left, center, right);
-
+        // Triangular filter, the lowest of the two slopes
         float val = 0.0f;
-        for (int k=left; k<=center; k++) {
-            const float r = eml_audio_mel_center(mel, m-1) - eml_fft_freq(mel, k);
-            const float weight = eml_max(eml_min(-r/fdifflow, 1.0f), 0.0f);
-            //if (m == 2) {
-            //    fprintf(stderr, "k=%d wl=%f \n", k, weight);
-            //}
+        for (int k=left; k<=right; k++) {
+            const float freq = eml_fft_freq(mel, k);
+            const float lower = (freq - eml_audio_mel_center(mel, m-1)) / fdifflow;
+            const float upper = (eml_audio_mel_center(mel, m+1) - freq) / fdiffupper;
+            const float weight = eml_max(eml_min(lower, upper), 0.0f);
             val += spec.data[k] * weight;
         }
-        for (int k=center; k<right; k++) {
-            const float r = eml_audio_mel_center(mel, m+1) - eml_fft_freq(mel, k+1);
-            const float weight = eml_max(eml_min(r/fdiffupper, 1.0f), 0.0f);
-            //if (m == 2) {
-            //    fprintf(stderr, "k=%d, wr=%f \n", k, weight);
-            //}
-            val += spec.data[k+1] * weight;
-        }
         //fprintf(stderr, "mel %d: val=%f\n", m, val);
 
         mels.data[m-1] = val;
-- 
2.43.0


From 586d94fb45bab345433177f2cf87c633de2022d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:07 +0000
Subject: [PATCH 35/83] fix: audio: mel filters beyond the spectrum read out of
 bounds

---
 emlearn/eml_audio.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/emlearn/eml_audio.h b/emlearn/eml_audio.h
index 887fbc2..5782865 100644
--- a/emlearn/eml_audio.h
+++ b/emlearn/eml_audio.h
@@ -93,6 +93,11 @@ eml_audio_melspec(EmlAudioMel mel, EmlVector spec, EmlVector mels) {
     EML_PRECONDITION(max_bin <= spec.length, EmlSizeMismatch);
     EML_PRECONDITION(mel.n_mels == mels.length, EmlSizeMismatch);
 
+    EML_PRECONDITION(mel.samplerate > 0, EmlUnsupported);
+    EML_PRECONDITION(mel.fmin >= 0.0f, EmlUnsupported);
+    EML_PRECONDITION(mel.fmin < mel.fmax, EmlUnsupported);
+    EML_PRECONDITION(mel.fmax <= mel.samplerate, EmlUnsupported);
+
     // Note: no normalization
     for (int m=1; m<mel.n_mels+1; m++) {
         const int left = mel_bin(mel, m-1);
@@ -101,7 +106,7 @@ eml_audio_melspec(EmlAudioMel mel, EmlVector spec, EmlVector mels) {
         if (left < 0) {
             return EmlUnknownError;
         }
-        if (right > max_bin) {
+        if (right >= max_bin) {
             return EmlUnknownError;
         }
 
-- 
2.43.0


From 88e42aceb4bd95b2844e4a27ad185799e21cb2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:07 +0000
Subject: [PATCH 36/83] fix: audio: check the buffers of melspectrogram

---
 emlearn/eml_audio.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/emlearn/eml_audio.h b/emlearn/eml_audio.h
index 5782865..5d1a977 100644
--- a/emlearn/eml_audio.h
+++ b/emlearn/eml_audio.h
@@ -22,7 +22,7 @@ EmlError
 eml_audio_power_spectrogram(EmlVector rfft, EmlVector out, int n_fft) {
     const int spec_length = 1+n_fft/2;
 
-    EML_PRECONDITION(rfft.length > spec_length, EmlSizeMismatch);
+    EML_PRECONDITION(rfft.length >= spec_length, EmlSizeMismatch);
     EML_PRECONDITION(out.length == spec_length, EmlSizeMismatch);
 
     const float scale = 1.0f/n_fft;
@@ -148,7 +148,11 @@ eml_audio_melspectrogram(EmlAudioMel mel_params, EmlFFT fft, EmlVector inout, Em
     const int n_fft = mel_params.n_fft;
     const int s_length = 1+n_fft/2;
     const int n_mels = mel_params.n_mels;
- 
+
+    EML_PRECONDITION(inout.length == n_fft, EmlSizeMismatch);
+    EML_PRECONDITION(temp.length >= n_fft, EmlSizeMismatch);
+    EML_PRECONDITION(n_mels <= inout.length, EmlSizeMismatch);
+
     // Apply window
     EML_CHECK_ERROR(eml_signal_hann_apply(inout.data, inout.length));
 
-- 
2.43.0


From f939743898c390e280b19b44e912426a3f1cef0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:07 +0000
Subject: [PATCH 37/83] fix: audio: melspectrogram ignored the imaginary part
 of the spectrum

---
 emlearn/eml_audio.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/emlearn/eml_audio.h b/emlearn/eml_audio.h
index 5d1a977..56f63d1 100644
--- a/emlearn/eml_audio.h
+++ b/emlearn/eml_audio.h
@@ -160,6 +160,11 @@ eml_audio_melspectrogram(EmlAudioMel mel_params, EmlFFT fft, EmlVector inout, Em
     EML_CHECK_ERROR(eml_vector_set_value(temp, 0.0f));
     EML_CHECK_ERROR(eml_fft_forward(fft, inout.data, temp.data, inout.length));
 
+    // Magnitude of the complex spectrum
+    for (int i=0; i<s_length; i++) {
+        inout.data[i] = sqrtf(inout.data[i]*inout.data[i] + temp.data[i]*temp.data[i]);
+    }
+
     // Compute mel-spectrogram
     EML_CHECK_ERROR(eml_audio_power_spectrogram(inout, eml_vector_view(temp, 0, s_length), n_fft));
     EML_CHECK_ERROR(eml_audio_melspec(mel_params, temp, eml_vector_view(inout, 0, n_mels)));
-- 
2.43.0


From 09ccafea86a8be687a1f5baa0b4010cdfc042f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:07 +0000
Subject: [PATCH 38/83] fix: bindings: throw exceptions by value, so that they
 can be handled

---
 bindings/emlpy_common.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bindings/emlpy_common.hpp b/bindings/emlpy_common.hpp
index a406299..4b5701a 100644
--- a/bindings/emlpy_common.hpp
+++ b/bindings/emlpy_common.hpp
@@ -4,7 +4,7 @@
 
 #include <eml_common.h>
 
-#include <exception>
+#include <stdexcept>
 
 namespace emlpy {
 
@@ -37,7 +37,7 @@ public:
 #define EMLPY_PRECONDITION(expr, msg) \
     do { \
         if (!(expr)) { \
-            throw new emlpy::PreconditionFailed(msg); \
+            throw emlpy::PreconditionFailed(msg); \
         } \
     } while (0);
 
@@ -46,7 +46,7 @@ public:
     do { \
         const EmlError _e = (expr); \
         if (_e != EmlOk) { \
-            throw new emlpy::Error(_e); \
+            throw emlpy::Error(_e); \
         } \
     } while (0);
 
-- 
2.43.0


From 1a6c9660641a8a7a286fecac0b8815eed7ac616f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:07 +0000
Subject: [PATCH 39/83] fix: bindings: iirfilter read out of bounds when SOS
 did not have 6 columns

---
 bindings/eml_signal.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bindings/eml_signal.cpp b/bindings/eml_signal.cpp
index 980085d..9d0f0ad 100644
--- a/bindings/eml_signal.cpp
+++ b/bindings/eml_signal.cpp
@@ -21,6 +21,7 @@ iirfilter_py(py::array_t<float, py::array::c_style | py::array::forcecast> sos,
 
 {
     EMLPY_PRECONDITION(sos.ndim() == 2, "SOS coefficients must have dimensions 2");
+    EMLPY_PRECONDITION(sos.shape(1) == 6, "SOS coefficients must have 6 columns");
     EMLPY_PRECONDITION(data.ndim() == 1, "data must have dimensions 1");
 
     const int n_stages = (int)sos.shape(0);
-- 
2.43.0


From 40004baae55acac3d93a2b4c1feb79138896a6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:07 +0000
Subject: [PATCH 40/83] fix: bindings: sparse_filterbank read out of bounds
 with inconsistent arguments

---
 bindings/eml_audio.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/bindings/eml_audio.cpp b/bindings/eml_audio.cpp
index 430007e..fd164e7 100644
--- a/bindings/eml_audio.cpp
+++ b/bindings/eml_audio.cpp
@@ -147,6 +147,21 @@ sparse_filterbank_py(py::array_t<float, py::array::c_style | py::array::forcecas
     EMLPY_PRECONDITION(starts.shape(0) == stops.shape(0), "Number of starts must equals stops");
 
     const int output_length = (int)starts.shape(0);
+
+    // All filters must be inside the input and the coefficients
+    py::ssize_t n_coeffs = 0;
+    for (int i=0; i<output_length; i++) {
+        const int start = starts.data()[i];
+        const int stop = stops.data()[i];
+        if (stop < start) {
+            continue; // no coefficients
+        }
+        EMLPY_PRECONDITION(start >= 0, "Starts must be positive");
+        EMLPY_PRECONDITION(stop < in.shape(0), "Stops must be within input");
+        n_coeffs += (py::ssize_t)stop - start + 1;
+    }
+    EMLPY_PRECONDITION(n_coeffs == coeffs.shape(0), "Wrong number of coefficients");
+
     auto ret = py::array_t<float>(output_length);
 
     EMLPY_CHECK_ERROR(eml_sparse_filterbank(in.data(),
-- 
2.43.0


From 4f5281868b150f647e296b780b591d6826d4741a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:07 +0000
Subject: [PATCH 41/83] fix: signal: sparse filterbanks with empty filters or
 zeros inside of a filter

---
 emlearn/signal.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/emlearn/signal.py b/emlearn/signal.py
index e606726..967154b 100644
--- a/emlearn/signal.py
+++ b/emlearn/signal.py
@@ -16,10 +16,15 @@ def sparse_filterbank(mels):
     for mel_idx in range(mels.shape[0]):
         mel = mels[mel_idx]
         nonzero = numpy.nonzero(mel)[0]
-        first, last = nonzero[0], nonzero[-1]
+        if len(nonzero):
+            first, last = nonzero[0], nonzero[-1]
+        else:
+            # empty, no coefficients
+            first, last = 0, -1
         starts.append(first)
         ends.append(last)
-        coeffs += list(mel[nonzero])
+        # include any zeros between start and end
+        coeffs += list(mel[first:last+1])
 
     return starts, ends, coeffs
 
-- 
2.43.0


From 7ce9dbfc5c9bd723b67d5ae116080806e8effa0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:07 +0000
Subject: [PATCH 42/83] fix: tools: narrow line wrapping must not split numbers
 and names

---
 emlearn/tools/mel_filterbank.py  | 3 ++-
 emlearn/tools/window_function.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/emlearn/tools/mel_filterbank.py b/emlearn/tools/mel_filterbank.py
index 25c0a80..7a83a9b 100644
--- a/emlearn/tools/mel_filterbank.py
+++ b/emlearn/tools/mel_filterbank.py
@@ -25,7 +25,8 @@ def mel_filterbank(args, name):
     gen = emlearn.signal.sparse_filterbank_serialize(sparse, name=name, frequencies=frequencies,
             n_fft=args.fft, sr=args.samplerate, fmin=args.fmin, fmax=fmax)
 
-    w = textwrap.wrap(gen, args.linewrap, replace_whitespace=False)
+    w = textwrap.wrap(gen, args.linewrap, replace_whitespace=False,
+        break_long_words=False, break_on_hyphens=False)
     wrapped = '\n'.join(w)
     return wrapped
 
diff --git a/emlearn/tools/window_function.py b/emlearn/tools/window_function.py
index 679c1a7..f2bf152 100755
--- a/emlearn/tools/window_function.py
+++ b/emlearn/tools/window_function.py
@@ -46,7 +46,8 @@ def window_function(name, window_type, length, fft_mode, linewrap):
     ]
     gen = '\n'.join(arrays)
 
-    w = textwrap.wrap(gen, linewrap)
+    w = textwrap.wrap(gen, linewrap,
+        break_long_words=False, break_on_hyphens=False)
     wrapped = '\n'.join(w)
     return wrapped
 
-- 
2.43.0


From 3ce965e01ea0c47d8130c3f949b70f6dc4c084e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:07 +0000
Subject: [PATCH 43/83] fix: tools: mel-filterbank options --htk False and
 --normalize False were taken as True

---
 emlearn/tools/mel_filterbank.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/emlearn/tools/mel_filterbank.py b/emlearn/tools/mel_filterbank.py
index 7a83a9b..e8519da 100644
--- a/emlearn/tools/mel_filterbank.py
+++ b/emlearn/tools/mel_filterbank.py
@@ -31,6 +31,16 @@ def mel_filterbank(args, name):
     return wrapped
 
 
+def parse_bool(value):
+    known = {
+        'true': True, 'yes': True, '1': True,
+        'false': False, 'no': False, '0': False,
+    }
+    if value.lower() not in known:
+        raise argparse.ArgumentTypeError("Not a boolean: '{}'".format(value))
+    return known[value.lower()]
+
+
 def parse(args=None):
     parser = argparse.ArgumentParser(description='Generate filterbank for Mel spectrogram')
     a = parser.add_argument
@@ -46,9 +56,9 @@ def parse(args=None):
       help='Frequency of lowest band. Default: 0')
     a('--fmax', type=int, default=None,
       help='Frequency of highest band. Default: samplerate/2')
-    a('--htk', type=bool, default=False,
+    a('--htk', type=parse_bool, default=False,
       help='Use HTK style filter spacing')
-    a('--normalize', type=bool, default=True,
+    a('--normalize', type=parse_bool, default=True,
       help='Normalize to have constant energy per band')
 
     a('--name', type=str, default='',
-- 
2.43.0


From 1940d249cdc8cddc4b912451d7ff66c6c09bab38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:07 +0000
Subject: [PATCH 44/83] fix: arduino: do not create an empty library when the
 emlearn files are not found

---
 emlearn/arduino/install.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/emlearn/arduino/install.py b/emlearn/arduino/install.py
index 12b3a7d..30f363e 100644
--- a/emlearn/arduino/install.py
+++ b/emlearn/arduino/install.py
@@ -25,21 +25,28 @@ def install_arduino_library(emlearn_include_dir, arduino_library_dir, update=Fal
         raise Error(f"""Library already exists at '{library_dir}'.
             Specifying --update will overwrite/update the files.""")
 
-    ensure_dir_single(arduino_library_dir)
-    ensure_dir_single(library_dir)
-
     def in_library(pattern):
-        return os.path.join(emlearn_include_dir, pattern)
+        return os.path.join(glob.escape(emlearn_include_dir), pattern)
 
     patterns = [
         in_library('eml_*.h'), # must have
         in_library('VERSION.txt'), # convenient for debugging/support etc
     ]
 
-    # Copy the files
+    # Find files to copy
+    files = []
     for p in patterns:
-        for f in glob.glob(p):
-            shutil.copy(f, library_dir+'/')
+        found = sorted(glob.glob(p))
+        if not found:
+            raise Error(f"No files found for '{p}'")
+        files += found
+
+    ensure_dir_single(arduino_library_dir)
+    ensure_dir_single(library_dir)
+
+    # Copy the files
+    for f in files:
+        shutil.copy(f, library_dir+'/')
 
     return library_dir
 
-- 
2.43.0


From 3d57c1e4ec1a57de9075f186d975c3ebb3b59aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:37 +0000
Subject: [PATCH 45/83] fix: convert: refuse options that are not supported
 instead of ignoring them

---
 emlearn/convert.py | 10 ++++++++++
 emlearn/mixture.py |  5 ++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/emlearn/convert.py b/emlearn/convert.py
index 3c1cdb7..7efba67 100644
--- a/emlearn/convert.py
+++ b/emlearn/convert.py
@@ -65,6 +65,16 @@ def convert(estimator,
     if kind is None:
         kind = type(estimator).__name__
 
+    is_tree = kind in set(trees.SUPPORTED_ESTIMATORS)
+    is_net = kind in ('MLPClassifier', 'MLPRegressor', 'Sequential')
+
+    if return_type not in ('classifier', 'regressor'):
+        raise ValueError("Unsupported return_type: '{}'".format(return_type))
+    if not is_tree and dtype not in (None, 'float'):
+        raise ValueError("Unsupported dtype for '{}': '{}'".format(kind, dtype))
+    if not is_tree and not is_net and kwargs:
+        raise ValueError("Unsupported options for '{}': {}".format(kind, sorted(kwargs)))
+
     # Use name instead of instance to avoid hard dependency on the libraries
     if kind in set(trees.SUPPORTED_ESTIMATORS):
         # return_type is intentionally not passed through - the Wrapper will guess based on Class name
diff --git a/emlearn/mixture.py b/emlearn/mixture.py
index 63a6c63..72de31c 100644
--- a/emlearn/mixture.py
+++ b/emlearn/mixture.py
@@ -304,7 +304,10 @@ class Wrapper:
 
         if classifier is None:
             classifier = 'loadable'
-    
+
+        if classifier not in ('inline', 'loadable'):
+            raise ValueError(f"Unsupported inference method '{classifier}'")
+
         n_components, n_features = estimator.means_.shape
         covariance_type = estimator.covariance_type
         precisions_chol = estimator.precisions_cholesky_
-- 
2.43.0


From 5ef0da11b98b811b8d7f3c6c4719ad27222e943a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:37 +0000
Subject: [PATCH 46/83] fix: quantizer: out-of-range values wrapped around for
 some input and output types

---
 emlearn/preprocessing/quantizer.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/emlearn/preprocessing/quantizer.py b/emlearn/preprocessing/quantizer.py
index 310a619..c5820a2 100644
--- a/emlearn/preprocessing/quantizer.py
+++ b/emlearn/preprocessing/quantizer.py
@@ -67,11 +67,20 @@ class Quantizer(BaseEstimator, TransformerMixin):
     def transform(self, X, y=None):
 
         # scale
-        out = X * self.scale_
+        # use double precision, so that limits of integers up to 32 bits can be represented
+        out = numpy.asarray(X, dtype=float) * self.scale_
 
         # clip out-of-range values
         out_max = self._get_out_max()
-        out = numpy.clip(out, -out_max, out_max)
+        low, high = -out_max, out_max
+        if numpy.issubdtype(self.dtype, numpy.integer):
+            # must also be representable in the output type
+            info = numpy.iinfo(self.dtype)
+            low, high = max(low, info.min), min(high, info.max)
+        out = numpy.clip(out, low, high)
+        if numpy.issubdtype(self.dtype, numpy.integer) and float(high) > high:
+            # limits of 64 bit integers cannot be represented exactly
+            out = numpy.minimum(out, numpy.nextafter(float(high), 0))
 
         # quantize / convert dtype
         out = out.astype(self.dtype)
-- 
2.43.0


From 0f2dbcace555078ce8297f8cf76b0a4e772a06b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:37 +0000
Subject: [PATCH 47/83] fix: pareto: results with equal cost and performance
 were dropped

---
 emlearn/evaluate/pareto.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/emlearn/evaluate/pareto.py b/emlearn/evaluate/pareto.py
index d85033f..a24ac82 100644
--- a/emlearn/evaluate/pareto.py
+++ b/emlearn/evaluate/pareto.py
@@ -19,7 +19,9 @@ def is_pareto_efficient_simple(costs):
     is_efficient = numpy.ones(costs.shape[0], dtype = bool)
     for i, c in enumerate(costs):
         if is_efficient[i]:
-            is_efficient[is_efficient] = numpy.any(costs[is_efficient] < c, axis=1)  # Keep any point with a lower cost
+            others = costs[is_efficient]
+            # Keep any point with a lower cost, and those with equal costs
+            is_efficient[is_efficient] = numpy.any(others < c, axis=1) | numpy.all(others == c, axis=1)
             is_efficient[i] = True  # And keep self
     return is_efficient
 
-- 
2.43.0


From 72f823016a216052be86a8cf818741e76247edd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:37 +0000
Subject: [PATCH 48/83] fix: pareto: do not add or overwrite the
 mean_test_score column

---
 emlearn/evaluate/pareto.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/emlearn/evaluate/pareto.py b/emlearn/evaluate/pareto.py
index a24ac82..56a350f 100644
--- a/emlearn/evaluate/pareto.py
+++ b/emlearn/evaluate/pareto.py
@@ -42,24 +42,21 @@ def find_pareto_front(df,
     :returns: The rows that make up the Pareto front
     """
 
-    # prevnt mutating input    
-    df = df.copy()
-
     # flip to negative-is-better
+    score = df[performance_metric].values.astype(float)
     if higher_is_better:
-        df['mean_test_score'] = -df[performance_metric]
-    else:
-        df['mean_test_score'] = df[performance_metric]
+        score = -score
 
-    pp = is_pareto_efficient_simple(df[['mean_test_score', cost_metric]].values)
+    costs = numpy.column_stack([ score, df[cost_metric].values.astype(float) ])
+    pp = is_pareto_efficient_simple(costs)
     
     if min_performance is not None:
         if higher_is_better:
-            pp = (pp & (df[performance_metric] >= min_performance))
+            pp = (pp & (df[performance_metric] >= min_performance).values)
         else:
-            pp = (pp & (df[performance_metric] <= min_performance))
+            pp = (pp & (df[performance_metric] <= min_performance).values)
     
-    return df[pp]
+    return df[pp].copy()
 
 def plot_pareto_front(results,
                       pareto_cut=None,
@@ -84,7 +81,11 @@ def plot_pareto_front(results,
 
     import seaborn
 
-    pf = find_pareto_front(results, min_performance=pareto_cut)
+    pf = find_pareto_front(results,
+        cost_metric=cost_metric,
+        performance_metric=performance_metric,
+        min_performance=pareto_cut,
+    )
     pf = pf.sort_values(cost_metric)
 
     g = seaborn.FacetGrid(results, hue=hue, height=height, aspect=aspect)
-- 
2.43.0


From 2a3678533ee63c93b83f19a85c495721c53df06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:37 +0000
Subject: [PATCH 49/83] fix: evaluate: size of leaves, number of trees and
 compute cost of tree models

---
 emlearn/evaluate/trees.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/emlearn/evaluate/trees.py b/emlearn/evaluate/trees.py
index 29d1c95..7af4201 100644
--- a/emlearn/evaluate/trees.py
+++ b/emlearn/evaluate/trees.py
@@ -60,7 +60,11 @@ def model_size_bytes(model, a=None, b=None, node_size=None, leaf_size=None):
         em = convert_model(model)
 
     if leaf_size is None:
-        leaf_size = math.ceil(em.leaf_bits/8)
+        # hard voting uses one byte, for the class
+        leaf_size = max(math.ceil(em.leaf_bits/8), 1)
+        if em.leaf_bits > 0 and em.is_classifier:
+            # soft voting has one value per class
+            leaf_size = leaf_size * em.n_classes
 
     nodes = model_size_nodes(em)
     leaves = model_size_leaves(em)
@@ -87,6 +91,10 @@ def count_trees(model, a=None, b=None):
     """
     Number of trees in model
     """
+    if isinstance(model, TreesWrapper):
+        nodes, roots, leaves = model.forest_
+        return len(roots)
+
     trees = get_tree_estimators(model)
     return len(trees)
 
@@ -108,7 +116,8 @@ def compute_cost_estimate(model, X, b=None):
     total = 0.0
     for e in trees:
         path = e.decision_path(X)
-        t = numpy.sum(path, axis=1)
+        # the path ends in a leaf, which is not a decision node
+        t = numpy.sum(path, axis=1) - 1
         total += numpy.mean(t)
     
     return total
-- 
2.43.0


From 56d60a7dc5c9850984b8cb00da9f728d1ca413c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:37 +0000
Subject: [PATCH 50/83] fix: zephyr: sensor fetch errors were not counted

---
 .../zephyr/motion_recognition/src/sensor_reader.c             | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/platform_examples/zephyr/motion_recognition/src/sensor_reader.c b/platform_examples/zephyr/motion_recognition/src/sensor_reader.c
index 3699046..3db4c22 100644
--- a/platform_examples/zephyr/motion_recognition/src/sensor_reader.c
+++ b/platform_examples/zephyr/motion_recognition/src/sensor_reader.c
@@ -19,11 +19,11 @@ sensor_chunk_reader_task(void *context, void *, void *)
         // Read data
 	    const int fetch_ret = sensor_sample_fetch(self->dev);
 	    if (fetch_ret < 0) {
-            self->fetch_errors += 0;
+            self->fetch_errors += 1;
 
 	    }
 	    for (size_t i = 0; i < self->n_channels; i++) {
-            struct sensor_value value;
+            struct sensor_value value = { 0 };
 		    const int get_ret = sensor_channel_get(self->dev, self->channels[i], &value);
             values[i] = sensor_value_to_double(&value);
 
-- 
2.43.0


From 7da1157848b0bb047c194fe8fb2a549827787d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:28 +0000
Subject: [PATCH 51/83] fix: trees: feature dtypes that are not C types gave
 code that does not compile

---
 emlearn/trees.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/emlearn/trees.py b/emlearn/trees.py
index c0b05bd..c493e62 100644
--- a/emlearn/trees.py
+++ b/emlearn/trees.py
@@ -22,6 +22,20 @@ SUPPORTED_ESTIMATORS=[
     'DecisionTreeRegressor',
 ]
 
+# C datatypes for features
+SUPPORTED_DTYPES=[
+    'float', 'double',
+    'int8_t', 'int16_t', 'int32_t', 'int64_t',
+    'uint8_t', 'uint16_t', 'uint32_t', 'uint64_t',
+    'char', 'short', 'int', 'long',
+    'unsigned char', 'unsigned short', 'unsigned int', 'unsigned long',
+]
+# numpy names
+DTYPE_ALIASES = {
+    'float32': 'float', 'float64': 'double',
+    'int8': 'int8_t', 'int16': 'int16_t', 'int32': 'int32_t', 'int64': 'int64_t',
+    'uint8': 'uint8_t', 'uint16': 'uint16_t', 'uint32': 'uint32_t', 'uint64': 'uint64_t',
+}
 
 def quantize_probabilities_into_byte(p, bits=8):
     assert bits <= 8, bits
@@ -716,6 +730,9 @@ class Wrapper:
         self.dtype = dtype
         if self.dtype is None:
             self.dtype = 'int16_t'
+        self.dtype = DTYPE_ALIASES.get(self.dtype, self.dtype)
+        if self.dtype not in SUPPORTED_DTYPES:
+            raise ValueError(f"Unsupported feature dtype '{self.dtype}'. Supported: {SUPPORTED_DTYPES}")
 
         kind = type(estimator).__name__
         leaf = 'argmax'
-- 
2.43.0


From 59cbb5f042d3ca87bcf9c41ab11ce7e35676a6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:00 +0000
Subject: [PATCH 52/83] fix: trees: save(inference=['loadable']) generated code
 that is not supported by EmlTrees

---
 emlearn/trees.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/emlearn/trees.py b/emlearn/trees.py
index c493e62..4eca824 100644
--- a/emlearn/trees.py
+++ b/emlearn/trees.py
@@ -781,21 +781,34 @@ class Wrapper:
         if self.method not in ('loadable', 'inline'):
             raise ValueError("Unsupported inference method '{}'".format(self.method))
 
-        if self.method == 'loadable' and self.dtype != 'int16_t':
+        # TODO: support more features for inline. Like 255
+        max_features = 10000
+        if self.n_features > max_features:
+            raise ValueError(f"Maximum features exceeded. features={self.n_features} max={max_features}")
+
+        if self.method == 'loadable':
+            self._check_loadable()
+
+        self.classifier_ = None # lazy-initialized by _build_classifier
+
+    def _check_loadable(self):
+        """
+        Check that the model can be represented by EmlTrees
+
+        :raises ValueError: If the model is not supported
+        """
+        if self.dtype != 'int16_t':
             raise ValueError("Inference method='loadable' only supports dtype='int16_t'. Use method='inline' for others")
 
-        # TODO: support more features for inline. Like 255
-        max_features = 127 if self.method == 'loadable' else 10000
+        max_features = 127
         if self.n_features > max_features:
             raise ValueError(f"Maximum features exceeded. features={self.n_features} max={max_features}")
 
         # EMTREES_MAX_CLASSES in eml_trees.h
         max_classes = 30
-        if self.method == 'loadable' and self.n_classes > max_classes:
+        if self.n_classes > max_classes:
             raise ValueError(f"Maximum classes exceeded. classes={self.n_classes} max={max_classes}")
 
-        self.classifier_ = None # lazy-initialized by _build_classifier
-
     def _build_classifier(self):
         if self.classifier_ is not None:
             return None
@@ -939,6 +952,7 @@ class Wrapper:
                 include_proba=include_proba,
             )
             if 'loadable' in inference:
+                self._check_loadable()
                 code += '\n\n' + generate_c_loadable(**generate_args)
             if 'inline' in inference:
                 code += '\n\n' + generate_c_inlined(**generate_args)
-- 
2.43.0


From 03ff5bacfa84a6eab06094584b5ffc889f3e5a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:47 +0000
Subject: [PATCH 53/83] fix: cgen: range of unsigned int literals

---
 emlearn/cgen.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/emlearn/cgen.py b/emlearn/cgen.py
index d19c618..3f9bcd5 100644
--- a/emlearn/cgen.py
+++ b/emlearn/cgen.py
@@ -47,7 +47,10 @@ def integer_limits(dtype):
     Types of unknown width, like "int", are assumed to have at least 32 bits
     """
     match = re.fullmatch(r'(u?)int(8|16|32|64)_t', dtype)
-    unsigned, bits = (match.group(1), int(match.group(2))) if match else ('', 32)
+    if match:
+        unsigned, bits = match.group(1), int(match.group(2))
+    else:
+        unsigned, bits = dtype.startswith('unsigned'), 32
     if unsigned:
         return 0, 2**bits - 1
     else:
-- 
2.43.0


From 5cf33e934a4b130787d967ff7f65ce0f367f0a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:35 +0000
Subject: [PATCH 54/83] fix: net: Keras activation layers after another
 activation, or with a maximum, were ignored

---
 emlearn/net.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/emlearn/net.py b/emlearn/net.py
index 9779329..94dcfe8 100644
--- a/emlearn/net.py
+++ b/emlearn/net.py
@@ -380,6 +380,10 @@ def convert_keras(model, method, **kwargs):
     def set_activation(activation):
         # merge dedicated Activation layers into the previous layer
         # TODO: maybe make activation a separate layer in our representation
+        if activation == 'identity':
+            return
+        if activations[-1] != 'identity':
+            raise NotImplementedError("Activation '{}' following activation '{}' is not supported".format(activation, activations[-1]))
         activations[-1] = activation
 
     for i, l in enumerate(model.layers):
@@ -397,6 +401,7 @@ def convert_keras(model, method, **kwargs):
         elif layer_type == 'ReLU':
             assert l.negative_slope == 0.0, 'ReLU.negative_slope must be 0.0'
             assert l.threshold == 0.0, 'ReLU.threshold must be 0.0'
+            assert l.max_value is None, 'ReLU.max_value must be None'
             set_activation('relu')
             continue
         elif layer_type == 'Softmax':
-- 
2.43.0


From 9093711d8ffa73851040d530959f78e1871c1531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:35 +0000
Subject: [PATCH 55/83] fix: net: refuse layers that do not fit together,
 instead of using leftover data

---
 emlearn/eml_net.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/emlearn/eml_net.h b/emlearn/eml_net.h
index 36b6d3f..1304bd3 100644
--- a/emlearn/eml_net.h
+++ b/emlearn/eml_net.h
@@ -253,6 +253,10 @@ eml_net_infer(EmlNet *model, const float *features, int32_t features_length)
     EML_PRECONDITION(model->n_layers >= 2, EmlUnsupported);
     EML_PRECONDITION(features_length == model->layers[0].n_inputs, EmlSizeMismatch);
     EML_PRECONDITION(model->activations_length >= eml_net_find_largest_layer(model), EmlSizeMismatch);
+    for (int l=1; l<model->n_layers; l++) {
+        // otherwise would use leftover data in the buffers
+        EML_PRECONDITION(model->layers[l].n_inputs == model->layers[l-1].n_outputs, EmlSizeMismatch);
+    }
 
     const int32_t buffer_length = model->activations_length; 
     float *buffer1 = model->activations1;
-- 
2.43.0


From b0cb26ade970429112c2fc0a187fb47815afeb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:54 +0000
Subject: [PATCH 56/83] fix: net: softmax of large values did not sum to one,
 so that predict_proba failed

---
 emlearn/eml_net.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/emlearn/eml_net.h b/emlearn/eml_net.h
index 1304bd3..433349a 100644
--- a/emlearn/eml_net.h
+++ b/emlearn/eml_net.h
@@ -76,12 +76,12 @@ eml_net_softmax(float *input, size_t input_length)
 
     float sum = 0.0f;
     for (size_t i = 0; i < input_length; i++) {
-        sum += expf(input[i] - input_max);
+        input[i] = expf(input[i] - input_max);
+        sum += input[i];
     }
 
-    const float offset = input_max + logf(sum);
     for (size_t i = 0; i < input_length; i++) {
-        input[i] = expf(input[i] - offset);
+        input[i] = input[i] / sum;
     }
 
     return EmlOk;
-- 
2.43.0


From 3f54f52984bb0598fc0fb3a83639e71fdc92e930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:31 +0000
Subject: [PATCH 57/83] fix: bayes: class priors were ignored

---
 emlearn/bayes.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/emlearn/bayes.py b/emlearn/bayes.py
index 92d39bf..094c457 100644
--- a/emlearn/bayes.py
+++ b/emlearn/bayes.py
@@ -77,7 +77,6 @@ def generate_c(model, name='myclassifier'):
     return '\n\n'.join([head, summaries, model, predict_function]) 
 
 
-# TODO: support class_priors_
 # TODO: support predict_log_proba / predict_proba
 class Wrapper(object):
     """
@@ -105,6 +104,14 @@ class Wrapper(object):
                     raise ValueError(f"Feature {feature_n} outside of fixed-point range. mean={mean} std={std}")
                 std_log2 = numpy.log2(std)
                 model[class_n,feature_n] = (mean, std, std_log2)
+
+            # The class prior is a constant added to the log likelihood of the class.
+            # Included with the first feature. Relative to equal priors, which do not influence the prediction
+            prior = estimator.class_prior_[class_n]
+            if prior <= 0.0:
+                raise ValueError(f"Prior of class {class_n} must be positive: {prior}")
+            model[class_n,0,2] -= numpy.log2(prior * n_classes)
+
         self.model = model
 
         if method is None:
-- 
2.43.0


From f4fc2654201f8116b7f32b597a41f7500e21a048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:34 +0000
Subject: [PATCH 58/83] eml_test.h: back to the original, rows of any model fit
 the buffer that convert() sets up

---
 emlearn/eml_test.h | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/emlearn/eml_test.h b/emlearn/eml_test.h
index 410a674..856b431 100644
--- a/emlearn/eml_test.h
+++ b/emlearn/eml_test.h
@@ -62,10 +62,6 @@ eml_test_read_csv(FILE *fp, EmlCsvCallback row_callback) {
 
     while(fgets(buffer, EML_CSV_BUFFER_LENGTH, fp))
     {
-        if (strchr(buffer, '\n') == NULL && !feof(fp)) {
-            return EmlSizeMismatch; // row did not fit in buffer
-        }
-
         int value_no = 0;
         const EmlError e = eml_test_parse_csv_line(buffer, values, EML_CSV_VALUES_LENGTH, &value_no);
         EML_CHECK_ERROR(e);
-- 
2.43.0


From 3527792e2957b468a03674928f41f25e8129937d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:02 +0000
Subject: [PATCH 59/83] fix: mixture: responsibilities did not sum to one for
 points far from all components

---
 emlearn/eml_mixture.h | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/emlearn/eml_mixture.h b/emlearn/eml_mixture.h
index eff5aa2..86972b1 100644
--- a/emlearn/eml_mixture.h
+++ b/emlearn/eml_mixture.h
@@ -301,13 +301,22 @@ int32_t eml_mixture_predict_proba(EmlMixtureModel *model,
     if (status != EmlOk) {
         return status;
     }
+    // Relative to the most likely component, as the score does not have the resolution
+    // needed when all components are very unlikely
+    float max_log_prob = 0.0f;
+    status = eml_minmax(probabilities, model->n_components, NULL, &max_log_prob);
+    if (status != EmlOk) {
+        return -status;
+    }
+
+    float sum = 0.0f;
     for (int i=0; i < model -> n_components; i++) {
-        out_resp[i] = probabilities[i] - *out_score;
+        out_resp[i] = expf(probabilities[i] - max_log_prob);
+        sum += out_resp[i];
     }
-    // Now take the exp() for each member of the array
     for (int i=0; i < model -> n_components; i++) {
-        out_resp[i] = expf(out_resp[i]); // compute their exponential values in-place.
-    } 
+        out_resp[i] = out_resp[i] / sum;
+    }
     return EmlOk;
     
 }
-- 
2.43.0


From e1a4dae2c6d9a3f567ba3b5ad25c6984ee16d537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:09 +0000
Subject: [PATCH 60/83] fix: converted models changed along with arrays of the
 source model

---
 emlearn/neighbors.py | 5 +++--
 emlearn/net.py       | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/emlearn/neighbors.py b/emlearn/neighbors.py
index c34a1f6..af6cdf8 100644
--- a/emlearn/neighbors.py
+++ b/emlearn/neighbors.py
@@ -40,8 +40,9 @@ class Wrapper:
         if inference is None:
             inference = 'loadable'
 
-        self.fit_data_X = estimator._fit_X
-        self.fit_data_Y = estimator._y
+        # copies, as the source model may share them with the arrays passed to fit()
+        self.fit_data_X = numpy.array(estimator._fit_X)
+        self.fit_data_Y = numpy.array(estimator._y)
         self.n_neighbors = estimator.n_neighbors
 
         # EML_NEIGHBORS_MAX_CLASSES in eml_neighbors.h
diff --git a/emlearn/net.py b/emlearn/net.py
index 94dcfe8..fd50a1c 100644
--- a/emlearn/net.py
+++ b/emlearn/net.py
@@ -40,8 +40,9 @@ class Wrapper:
             classifier = 'loadable'
 
         self.activations = activations
-        self.weights = weights
-        self.biases = biases
+        # copies, as the source model may get trained further
+        self.weights = [ numpy.array(w) for w in weights ]
+        self.biases = [ numpy.array(b) for b in biases ]
         self.classifier = None
         self.return_type = return_type
         self.inference_type = classifier
-- 
2.43.0


From fd63a9f8cffcf2ae24a27ef3223889bedbff247d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:21 +0000
Subject: [PATCH 61/83] fix: trees: explicit kind was ignored when telling
 classifiers from regressors

convert(kind=...) is there for subclasses of the supported models, but whether
the model is a regressor was still decided from the name of the subclass.
---
 emlearn/convert.py | 4 ++--
 emlearn/net.py     | 2 +-
 emlearn/trees.py   | 5 +++--
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/emlearn/convert.py b/emlearn/convert.py
index 7efba67..796c8d2 100644
--- a/emlearn/convert.py
+++ b/emlearn/convert.py
@@ -77,8 +77,8 @@ def convert(estimator,
 
     # Use name instead of instance to avoid hard dependency on the libraries
     if kind in set(trees.SUPPORTED_ESTIMATORS):
-        # return_type is intentionally not passed through - the Wrapper will guess based on Class name
-        return trees.Wrapper(estimator, method, dtype=dtype, **kwargs)
+        # return_type is intentionally not passed through - the Wrapper will guess based on the kind of model
+        return trees.Wrapper(estimator, method, dtype=dtype, kind=kind, **kwargs)
     elif kind in ['EllipticEnvelope']:
         if dtype is None:
             dtype = 'float'
diff --git a/emlearn/net.py b/emlearn/net.py
index fd50a1c..899b655 100644
--- a/emlearn/net.py
+++ b/emlearn/net.py
@@ -342,7 +342,7 @@ def convert_sklearn_mlp(model, method, **kwargs):
     if (model.n_layers_ < 3):
         raise ValueError("Model must have at least one hidden layer")
 
-    if type(model).__name__ == 'MLPClassifier' and model.out_activation_ == 'logistic' and model.n_outputs_ > 1:
+    if model.out_activation_ == 'logistic' and model.n_outputs_ > 1:
         raise ValueError("Multilabel classification is not supported")
 
     weights = model.coefs_
diff --git a/emlearn/trees.py b/emlearn/trees.py
index 4eca824..3495fd8 100644
--- a/emlearn/trees.py
+++ b/emlearn/trees.py
@@ -722,7 +722,7 @@ def generate_c_loadable(forest, name, n_features,
 
 
 class Wrapper:
-    def __init__(self, estimator, method, dtype='int16_t', leaf_bits=None):
+    def __init__(self, estimator, method, dtype='int16_t', leaf_bits=None, kind=None):
 
         if method is None:
             method = 'inline'
@@ -734,7 +734,8 @@ class Wrapper:
         if self.dtype not in SUPPORTED_DTYPES:
             raise ValueError(f"Unsupported feature dtype '{self.dtype}'. Supported: {SUPPORTED_DTYPES}")
 
-        kind = type(estimator).__name__
+        if kind is None:
+            kind = type(estimator).__name__
         leaf = 'argmax'
         self.is_classifier = True
         self.out_dtype = "int"
-- 
2.43.0


From 50e56b7fd28ed9111ac51dbf7d4b6f5b8dc47236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:07 +0000
Subject: [PATCH 62/83] fix: names that match a parameter of the generated
 functions gave code that does not work

The generated functions refer to the model by its name. A model called
"features" or "out" was hidden by the parameter of the same name.
---
 emlearn/net.py   | 13 +++++++------
 emlearn/trees.py | 18 ++++++++----------
 2 files changed, 15 insertions(+), 16 deletions(-)

diff --git a/emlearn/net.py b/emlearn/net.py
index 899b655..391ca9b 100644
--- a/emlearn/net.py
+++ b/emlearn/net.py
@@ -307,27 +307,28 @@ def c_generate_net_loadable(activations, weights, biases, prefix):
 
     name = prefix
     
+    # Parameters are prefixed with the name of the model, so that they never hide the model itself
     predict_function = f"""
     int32_t
-    {name}_predict(const float *features, int32_t n_features)
+    {name}_predict(const float *{name}_features, int32_t {name}_n_features)
     {{
-        return eml_net_predict(&{name}, features, n_features);
+        return eml_net_predict(&{name}, {name}_features, {name}_n_features);
     }}
     """
 
     regress_function = f"""
     int32_t
-    {name}_regress(const float *features, int32_t n_features, float *out, int32_t out_length)
+    {name}_regress(const float *{name}_features, int32_t {name}_n_features, float *{name}_out, int32_t {name}_out_length)
     {{
-        return eml_net_regress(&{name}, features, n_features, out, out_length);
+        return eml_net_regress(&{name}, {name}_features, {name}_n_features, {name}_out, {name}_out_length);
     }}
     """
 
     regress1_function = f"""
     float
-    {name}_regress1(const float *features, int32_t n_features)
+    {name}_regress1(const float *{name}_features, int32_t {name}_n_features)
     {{
-        return eml_net_regress1(&{name}, features, n_features);
+        return eml_net_regress1(&{name}, {name}_features, {name}_n_features);
     }}
     """
 
diff --git a/emlearn/trees.py b/emlearn/trees.py
index 3495fd8..27e04c0 100644
--- a/emlearn/trees.py
+++ b/emlearn/trees.py
@@ -664,10 +664,10 @@ def generate_c_loadable(forest, name, n_features,
     # Provide convenience wrapper functions, to not have to deal with the underlying structs etc
     ctype = dtype
 
-    forest_regressor_func = """float {function_name}(const {ctype} *features, int32_t features_length) {{
+    # Parameters are prefixed with the name of the model, so that they never hide the model itself
+    forest_regressor_func = """float {function_name}(const {ctype} *{model_name}_features, int32_t {model_name}_features_length) {{
 
-        const float out = eml_trees_regress1(&{model_name}, features, features_length);
-        return out;
+        return eml_trees_regress1(&{model_name}, {model_name}_features, {model_name}_features_length);
     }}
     """.format(**{
       'model_name': name,
@@ -676,10 +676,9 @@ def generate_c_loadable(forest, name, n_features,
       'ctype': ctype,
     })
 
-    forest_classifier_func = """int32_t {function_name}(const {ctype} *features, int32_t features_length) {{
+    forest_classifier_func = """int32_t {function_name}(const {ctype} *{model_name}_features, int32_t {model_name}_features_length) {{
 
-        const int out = eml_trees_predict(&{model_name}, features, features_length);
-        return out;
+        return eml_trees_predict(&{model_name}, {model_name}_features, {model_name}_features_length);
 
     }}
     """.format(**{
@@ -689,11 +688,10 @@ def generate_c_loadable(forest, name, n_features,
     })
 
 
-    forest_proba_func = """int {function_name}(const {ctype} *features, int32_t features_length, float *out, int out_length) {{
+    forest_proba_func = """int {function_name}(const {ctype} *{model_name}_features, int32_t {model_name}_features_length, float *{model_name}_out, int {model_name}_out_length) {{
 
-        const EmlError err = \
-            eml_trees_predict_proba(&{model_name}, features, features_length, out, out_length);
-        return err;
+        return eml_trees_predict_proba(&{model_name}, {model_name}_features, {model_name}_features_length,
+            {model_name}_out, {model_name}_out_length);
 
     }}
     """.format(**{
-- 
2.43.0


From f9131efba9ac0af48a3d2333c6a791003db65c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:25 +0000
Subject: [PATCH 63/83] fix: distance, mixture: generated code did not compile
 as C++, as needed for Arduino

---
 emlearn/distance.py | 4 ++--
 emlearn/mixture.py  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/emlearn/distance.py b/emlearn/distance.py
index ef2a966..f3f8e87 100644
--- a/emlearn/distance.py
+++ b/emlearn/distance.py
@@ -82,9 +82,9 @@ def generate_code(means, precision, offset, name='my_elliptic', modifiers='stati
     // Prediction function
     float {predict_function_name}(const float *features, int n_features) {{
         float dist = 0.0;
-        const int class = eml_elliptic_envelope_predict(&{classifier_name},
+        const int err = eml_elliptic_envelope_predict(&{classifier_name},
                                 features, n_features, &dist);
-        if (class < 0) {{
+        if (err < 0) {{
             return NAN;
         }}
         return dist; 
diff --git a/emlearn/mixture.py b/emlearn/mixture.py
index 72de31c..36b8faf 100644
--- a/emlearn/mixture.py
+++ b/emlearn/mixture.py
@@ -62,7 +62,7 @@ def generate_code(model, name='fss_mode'):
         {name}_score(const float values[], int32_t values_length, float *probabilities, float *score)
         {{
 
-            return eml_mixture_score(&{name}_model,
+            return (EmlError)eml_mixture_score(&{name}_model,
                                 values, values_length,
                                 probabilities, score);
         }}
-- 
2.43.0


From a95cf023dfac19720bb2f5c1af87517d3b960fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:25 +0000
Subject: [PATCH 64/83] fix: tools: refuse names that are not C identifiers

---
 emlearn/signal.py                | 2 ++
 emlearn/tools/window_function.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/emlearn/signal.py b/emlearn/signal.py
index 967154b..aadb370 100644
--- a/emlearn/signal.py
+++ b/emlearn/signal.py
@@ -30,6 +30,8 @@ def sparse_filterbank(mels):
 
 
 def sparse_filterbank_serialize(sparse, name, frequencies=None, n_fft=None, sr=None, fmin=None, fmax=None):
+    cgen.assert_valid_identifier(name)
+
     starts, ends, coeffs = sparse
     assert len(starts) == len(ends)
     n_bands = len(starts)
diff --git a/emlearn/tools/window_function.py b/emlearn/tools/window_function.py
index f2bf152..96833a3 100755
--- a/emlearn/tools/window_function.py
+++ b/emlearn/tools/window_function.py
@@ -39,6 +39,8 @@ def parse(args=None):
 def window_function(name, window_type, length, fft_mode, linewrap):
     import scipy.signal
 
+    cgen.assert_valid_identifier(name)
+
     window = scipy.signal.get_window(window_type, length, fftbins=fft_mode)
     arrays = [
         cgen.array_declare(name, length, values=window),
-- 
2.43.0


From 0bab4f67b74ee510d192ac0b3644062d6065fc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:30 +0000
Subject: [PATCH 65/83] fix: array: EML_ARRAY_INIT_2D failed silently when the
 dimensions were expressions

---
 emlearn/eml_array.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/emlearn/eml_array.h b/emlearn/eml_array.h
index 888dcb6..d5d5009 100644
--- a/emlearn/eml_array.h
+++ b/emlearn/eml_array.h
@@ -84,10 +84,10 @@ eml_array_init_full(EmlArray *self,
 do { \
      eml_array_init_full(_arr, \
         2, \
-        (int32_t[EML_ARRAY_MAX_DIMS]){ _dim1, _dim2, 0 }, \
-        sizeof(_values[0]), \
+        (int32_t[EML_ARRAY_MAX_DIMS]){ (_dim1), (_dim2), 0 }, \
+        sizeof((_values)[0]), \
         (uint8_t *)(_values), \
-        sizeof(_values[0])*_dim1*_dim2); \
+        sizeof((_values)[0])*(_dim1)*(_dim2)); \
 } while (0)
 
 size_t
-- 
2.43.0


From 3f8cbd98633e323c56978af923cbcbd4fc94b225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:17 +0000
Subject: [PATCH 66/83] fix: fileio: read errors were taken as end of file

---
 emlearn/eml_fileio.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/emlearn/eml_fileio.h b/emlearn/eml_fileio.h
index d966e3f..36c37a8 100644
--- a/emlearn/eml_fileio.h
+++ b/emlearn/eml_fileio.h
@@ -33,7 +33,11 @@ int eml_fileio_write(void *context, const uint8_t *buffer, size_t size)
 int eml_fileio_read(void *context, uint8_t *buffer, size_t size)
 {
     FILE* fptr = (FILE *)context;
-    return fread(buffer, 1, size, fptr);
+    const size_t n = fread(buffer, 1, size, fptr);
+    if (n < size && ferror(fptr)) {
+        return -1; // 0 would mean end of file
+    }
+    return n;
 }
 
 /**
-- 
2.43.0


From e13ade1c4e69dd7cf4c8acb0d4396550c36fd1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:48 +0000
Subject: [PATCH 67/83] fix: iir: the check of sizes overflowed for huge
 numbers of stages

---
 emlearn/eml_iir.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emlearn/eml_iir.h b/emlearn/eml_iir.h
index b9dc39d..9b25b1c 100644
--- a/emlearn/eml_iir.h
+++ b/emlearn/eml_iir.h
@@ -57,8 +57,8 @@ eml_iir_check(EmlIIR filter) {
     EML_PRECONDITION(filter.n_stages >= 1, EmlUninitialized);
     EML_PRECONDITION(filter.states, EmlUninitialized);
     EML_PRECONDITION(filter.coefficients, EmlUninitialized);
-    EML_PRECONDITION(filter.states_length == filter.n_stages*4, EmlSizeMismatch);
-    EML_PRECONDITION(filter.coefficients_length == filter.n_stages*6, EmlSizeMismatch);
+    EML_PRECONDITION(filter.states_length == (int64_t)filter.n_stages*4, EmlSizeMismatch);
+    EML_PRECONDITION(filter.coefficients_length == (int64_t)filter.n_stages*6, EmlSizeMismatch);
     return EmlOk;
 }
 
-- 
2.43.0


From e212bf16f1066e712ad22d17e0d3a397ff72cd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:57 +0000
Subject: [PATCH 68/83] fix: net_fixedpoint: argmax did not find a maximum in
 the first element

---
 emlearn/eml_net_fixedpoint.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/eml_net_fixedpoint.h b/emlearn/eml_net_fixedpoint.h
index 9bf0a0e..7c463a2 100644
--- a/emlearn/eml_net_fixedpoint.h
+++ b/emlearn/eml_net_fixedpoint.h
@@ -76,7 +76,7 @@ eml_argmax_fixed32(const eml_fixed32_t *values, int values_length)
     }
 
     eml_fixed32_t vmax = values[0];
-    int32_t argmax = -1;
+    int32_t argmax = 0;
     for (int i=0; i<values_length; i++) {
         if (values[i] > vmax) {
             vmax = values[i];
-- 
2.43.0


From 3d013782e46e1bff44f9b338c8942bdc41335efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:57 +0000
Subject: [PATCH 69/83] fix: bayes: log2fix with 31 bits of precision never
 returned

---
 emlearn/eml_bayes.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/eml_bayes.h b/emlearn/eml_bayes.h
index 355c9af..5a17196 100644
--- a/emlearn/eml_bayes.h
+++ b/emlearn/eml_bayes.h
@@ -37,7 +37,7 @@ int32_t eml_bayes_log2fix (uint32_t x, size_t precision)
     int32_t b = 1U << (precision - 1);
     int32_t y = 0;
 
-    if (precision < 1 || precision > 31) {
+    if (precision < 1 || precision > 30) { // 2 << precision must fit in 32 bits
         //errno = EINVAL;
         return INT32_MAX; // indicates an error
     }
-- 
2.43.0


From 2fb291b72cbd68681d38599a7da1fa7e3c725a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:11 +0000
Subject: [PATCH 70/83] fix: quantizer: scale overflowed for float32 and
 float16 output

---
 emlearn/preprocessing/quantizer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/emlearn/preprocessing/quantizer.py b/emlearn/preprocessing/quantizer.py
index c5820a2..5f6308b 100644
--- a/emlearn/preprocessing/quantizer.py
+++ b/emlearn/preprocessing/quantizer.py
@@ -40,6 +40,9 @@ class Quantizer(BaseEstimator, TransformerMixin):
             raise ValueError(f"Unsupported dtype {self.dtype}")
 
         out_max = info.max
+        if not numpy.issubdtype(self.dtype, numpy.integer):
+            # in the low precision of the dtype, computing the scale can overflow
+            out_max = float(out_max)
         return out_max
 
     def fit(self, X, y=None):
-- 
2.43.0


From ca8dcd8a56bea666b0d33f47b5d125938310a8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:27 +0000
Subject: [PATCH 71/83] fix: quantizer: limits beyond a float output type gave
 infinity

---
 emlearn/preprocessing/quantizer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/emlearn/preprocessing/quantizer.py b/emlearn/preprocessing/quantizer.py
index 5f6308b..33d0aae 100644
--- a/emlearn/preprocessing/quantizer.py
+++ b/emlearn/preprocessing/quantizer.py
@@ -76,10 +76,13 @@ class Quantizer(BaseEstimator, TransformerMixin):
         # clip out-of-range values
         out_max = self._get_out_max()
         low, high = -out_max, out_max
+        # must also be representable in the output type
         if numpy.issubdtype(self.dtype, numpy.integer):
-            # must also be representable in the output type
             info = numpy.iinfo(self.dtype)
             low, high = max(low, info.min), min(high, info.max)
+        else:
+            info = numpy.finfo(self.dtype)
+            low, high = max(low, float(info.min)), min(high, float(info.max))
         out = numpy.clip(out, low, high)
         if numpy.issubdtype(self.dtype, numpy.integer) and float(high) > high:
             # limits of 64 bit integers cannot be represented exactly
-- 
2.43.0


From 7a9daabd9c996dcb3385c2d9f693fd960e423263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:50 +0000
Subject: [PATCH 72/83] fix: quantizer: learning the range overflowed for small
 integer types

---
 emlearn/preprocessing/quantizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/emlearn/preprocessing/quantizer.py b/emlearn/preprocessing/quantizer.py
index 33d0aae..b7da489 100644
--- a/emlearn/preprocessing/quantizer.py
+++ b/emlearn/preprocessing/quantizer.py
@@ -51,6 +51,8 @@ class Quantizer(BaseEstimator, TransformerMixin):
 
         if self.max_value is None:
             # learn the value from data
+            # in small integer types, computing the range can overflow
+            X = numpy.asarray(X, dtype=float)
             if self.max_quantile is None:
                 min_value = numpy.min(X, axis=None)
                 max_value = numpy.max(X, axis=None)
-- 
2.43.0


From ee14088b79b6288d653c50443ff3f98f3aee6e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:18 +0000
Subject: [PATCH 73/83] fix: common: EML_DEBUG did not compile as C++ and
 reported invalid codes for negative errors

---
 emlearn/eml_common.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/emlearn/eml_common.h b/emlearn/eml_common.h
index c1021d4..7b1b1f9 100644
--- a/emlearn/eml_common.h
+++ b/emlearn/eml_common.h
@@ -77,10 +77,13 @@ static EmlDebugFunction eml_debug = eml_debug_stderr;
 
 #ifdef EML_DEBUG
 
+// Some functions return errors as negative values
+#define EML_DEBUG_CODE(errorcode) ((EmlError)abs((int)(errorcode)))
+
 #define EML_PRECONDITION(expr, errorcode) \
     do { \
         if (!(expr)) { \
-            if (eml_debug) { eml_debug(errorcode, __FILE__, __LINE__); } \
+            if (eml_debug) { eml_debug(EML_DEBUG_CODE(errorcode), __FILE__, __LINE__); } \
             return errorcode; \
         } \
     } while (0);
@@ -89,7 +92,7 @@ static EmlDebugFunction eml_debug = eml_debug_stderr;
 #define EML_POSTCONDITION(expr, errorcode) \
     do { \
         if (!(expr)) { \
-            if (eml_debug) { eml_debug(errorcode, __FILE__, __LINE__); } \
+            if (eml_debug) { eml_debug(EML_DEBUG_CODE(errorcode), __FILE__, __LINE__); } \
             return errorcode; \
         } \
     } while (0);
-- 
2.43.0


From b0e5d37c44da92c275fb4fcd8b9d7a6d903c56a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:18 +0000
Subject: [PATCH 74/83] fix: log: arrays were not logged as key=value

---
 emlearn/eml_log.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/eml_log.h b/emlearn/eml_log.h
index f1ab773..a10f7b8 100644
--- a/emlearn/eml_log.h
+++ b/emlearn/eml_log.h
@@ -109,7 +109,7 @@ Add an array
 */
 #define EML_LOG_ADD_ARRAY(key, arr, len, fmt) \
 do { \
-    EML_LOG_PRINTF(" %s", key); \
+    EML_LOG_PRINTF(" %s=", key); \
     EML_LOG_PRINT_ARRAY(arr, len, fmt); \
 } while (0)
 
-- 
2.43.0


From d6868db58048533f3a35368a32c6f615727341fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:19 +0000
Subject: [PATCH 75/83] fix: elliptic envelope and mixture models changed along
 with arrays of the source model

---
 emlearn/distance.py | 2 +-
 emlearn/mixture.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/emlearn/distance.py b/emlearn/distance.py
index f3f8e87..b3c18d6 100644
--- a/emlearn/distance.py
+++ b/emlearn/distance.py
@@ -100,7 +100,7 @@ class Wrapper:
     def __init__(self, estimator, classifier='inline', dtype='float'):
         self.dtype = dtype
 
-        precision = estimator.get_precision()
+        precision = estimator.get_precision().copy()
         self._means = estimator.location_.copy()
         self._precision = precision
         self._offset = estimator.offset_
diff --git a/emlearn/mixture.py b/emlearn/mixture.py
index 36b8faf..5e63381 100644
--- a/emlearn/mixture.py
+++ b/emlearn/mixture.py
@@ -325,7 +325,7 @@ class Wrapper:
         self._log_det = log_det
         self._means = estimator.means_.copy()
         self._covariance_type = covariance_type
-        self._precisions_col = precisions_chol
+        self._precisions_col = precisions_chol.copy() # may be shared with the source model
         self._log_weights = get_log_weights(estimator)
 
 
-- 
2.43.0


From 97a99e9617b0e0f5f8856624c55014e03fefecd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:45 +0000
Subject: [PATCH 76/83] fix: vector: integer overflow when checking the
 position to set at

---
 emlearn/eml_vector.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/emlearn/eml_vector.h b/emlearn/eml_vector.h
index c7b0811..b8eaede 100644
--- a/emlearn/eml_vector.h
+++ b/emlearn/eml_vector.h
@@ -18,13 +18,13 @@ typedef struct {
 
 int
 eml_vector_set(EmlVector dest, EmlVector source, int location) {
-    const int final_dest = source.length+location;
-    if (final_dest > dest.length) {
-        return -1;
-    }
     if (location < 0) {
         return -2;
     }
+    if (source.length > dest.length - location) {
+        return -1;
+    }
+    const int final_dest = source.length+location;
 
     for (int i=location; i<final_dest; i++) {
         dest.data[i] = source.data[i-location]; 
-- 
2.43.0


From 39a26d96186233414fbd00e6b6d97dad82654cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:45 +0000
Subject: [PATCH 77/83] fix: vector: Hann window of a single value was NaN

---
 emlearn/eml_vector.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/emlearn/eml_vector.h b/emlearn/eml_vector.h
index b8eaede..c2d35a6 100644
--- a/emlearn/eml_vector.h
+++ b/emlearn/eml_vector.h
@@ -64,6 +64,11 @@ eml_signal_mean(float *data, int length)
 EmlError
 eml_signal_hann_apply(float *data, int length)
 {
+    if (length < 2) {
+        // the window has no width. A single value is its peak
+        return EmlOk;
+    }
+
     for (int i=0; i<length; i++) {
         float m = (float)(0.5 * (1 - cos(2*M_PI*i/(length-1))));
         data[i] = m * data[i];
-- 
2.43.0


From 9b08ebc5f692e140224e2dc0f081d70412d5578e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:45 +0000
Subject: [PATCH 78/83] fix: neighbors: buffers of more than 32767 values did
 not pass the check

---
 emlearn/eml_neighbors.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/eml_neighbors.h b/emlearn/eml_neighbors.h
index fc10d81..07f3f6b 100644
--- a/emlearn/eml_neighbors.h
+++ b/emlearn/eml_neighbors.h
@@ -106,7 +106,7 @@ typedef struct _EmlNeighborsModel {
 
 EmlError
 eml_neighbors_check(EmlNeighborsModel *self,
-        int16_t data_length, int16_t labels_length, int16_t distances_length)
+        int32_t data_length, int32_t labels_length, int32_t distances_length)
 {
     const int32_t expect_data_length = self->max_items * self->n_features;
     if (data_length < expect_data_length) {
-- 
2.43.0


From 66b237bf0984d653fdf5b3eeba8ed0509f630c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:35 +0000
Subject: [PATCH 79/83] fix: neighbors: predictions that interrupt each other
 no longer share their votes

---
 emlearn/eml_neighbors.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/emlearn/eml_neighbors.h b/emlearn/eml_neighbors.h
index 07f3f6b..194fd2c 100644
--- a/emlearn/eml_neighbors.h
+++ b/emlearn/eml_neighbors.h
@@ -183,9 +183,6 @@ eml_neighbors_infer(EmlNeighborsModel *self,
     return EmlOk;
 }
 
-// FIXME: avoid hardcoding length
-int16_t eml_neighbors_votes[EML_NEIGHBORS_MAX_CLASSES];
-
 EmlError
 eml_neighbors_find_nearest(EmlNeighborsModel *self,
         EmlNeighborsDistanceItem *distances, int distances_length,
@@ -204,7 +201,8 @@ eml_neighbors_find_nearest(EmlNeighborsModel *self,
     // argsort by distance. NOTE: sorts in-place
     eml_neighbors_sort_distances(distances, distances_length);
 
-    int16_t *votes = eml_neighbors_votes;
+    // FIXME: avoid hardcoding length
+    int16_t votes[EML_NEIGHBORS_MAX_CLASSES];
     memset(votes, 0, sizeof(int16_t) * EML_NEIGHBORS_MAX_CLASSES);
 
     // merge predictions for top-k matches
-- 
2.43.0


From ed2810b6fbc97d5867d06d426bfaa30d9ab38815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:51 +0000
Subject: [PATCH 80/83] fix: struct declarations in C ignored their modifiers

---
 emlearn/cgen.py      | 5 +++--
 emlearn/neighbors.py | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/emlearn/cgen.py b/emlearn/cgen.py
index 3f9bcd5..2e2ff49 100644
--- a/emlearn/cgen.py
+++ b/emlearn/cgen.py
@@ -35,9 +35,10 @@ def struct_declare(name, type_name, values=[], modifiers='static const'):
 
     init = ''
     if values is not None:
-        init = f'= {struct_init(*values)}'
+        init = f' = {struct_init(*values)}'
 
-    out = f'{type_name} {name}{init};'
+    prefix = modifiers + ' ' if modifiers else ''
+    out = f'{prefix}{type_name} {name}{init};'
     return out
     
 
diff --git a/emlearn/neighbors.py b/emlearn/neighbors.py
index af6cdf8..9c70acc 100644
--- a/emlearn/neighbors.py
+++ b/emlearn/neighbors.py
@@ -137,7 +137,7 @@ def neighbors_model_init(name, n_neighbors, n_features, n_items, max_items, data
 
     # NOTE: order must match the EmlNeighbors C typedef
     values = ( n_features, n_items, max_items, data, labels, n_neighbors )
-    out = cgen.struct_declare(name, type_name='EmlNeighborsModel', values=values)
+    out = cgen.struct_declare(name, type_name='EmlNeighborsModel', values=values, modifiers='')
     return out
 
 def c_generate_neighbors(data, labels, n_neighbors, prefix,
-- 
2.43.0


From 25ae6874bcb7bcbd1c145c45d9120ac30adb1eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:51 +0000
Subject: [PATCH 81/83] fix: elliptic envelope flagged points exactly on the
 boundary as outliers

---
 emlearn/distance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/distance.py b/emlearn/distance.py
index b3c18d6..1595f46 100644
--- a/emlearn/distance.py
+++ b/emlearn/distance.py
@@ -131,7 +131,7 @@ class Wrapper:
         def predict_one(d):
             dist = -d
             dd = dist - self._offset
-            is_inlier = 1 if dd > 0 else -1
+            is_inlier = 1 if dd >= 0 else -1
             return is_inlier
 
         distances = self.mahalanobis(X)
-- 
2.43.0


From 23c70191537f5fb4abf90b01379c2bdc97927f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:51 +0000
Subject: [PATCH 82/83] fix: Pareto plot failed without groups, and lost the
 front of numeric groups

---
 emlearn/evaluate/pareto.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/emlearn/evaluate/pareto.py b/emlearn/evaluate/pareto.py
index 56a350f..0464034 100644
--- a/emlearn/evaluate/pareto.py
+++ b/emlearn/evaluate/pareto.py
@@ -102,11 +102,12 @@ def plot_pareto_front(results,
                         #hue=hue,
        )
 
-    def _plot_front(color, label):
-        if pareto_global:
+    def _plot_front(color, label=None):
+        if pareto_global or hue is None:
             sub = pf.copy()
-        else:        
-            sub = pf[pf[hue] == label]        
+        else:
+            # labels are strings, also for groups that are numbers
+            sub = pf[pf[hue].map(str) == str(label)]
 
         seaborn.lineplot(
             data=sub,
-- 
2.43.0


From 93c96bdd2a32ebb81f5978755a485e6671954478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:03:41 +0000
Subject: [PATCH 83/83] fix: log: arrays whose length is an expression or a
 variable named i were read out of bounds

---
 emlearn/eml_log.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/emlearn/eml_log.h b/emlearn/eml_log.h
index a10f7b8..3cd6286 100644
--- a/emlearn/eml_log.h
+++ b/emlearn/eml_log.h
@@ -66,9 +66,9 @@ Helper for printing an array
 #define EML_LOG_PRINT_ARRAY(arr, len, fmt) \
 do { \
     EML_LOG_PRINTF("["); \
-    for (int i=0; i<len; i++) { \
-        EML_LOG_PRINTF(fmt, arr[i]); \
-        if (i != len-1) { \
+    for (int eml_log_i=0; eml_log_i<(len); eml_log_i++) { \
+        EML_LOG_PRINTF(fmt, (arr)[eml_log_i]); \
+        if (eml_log_i != (len)-1) { \
             EML_LOG_PRINTF(","); \
         } \
     } \
-- 
2.43.0

