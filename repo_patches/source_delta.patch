From 5938d26736e9a6ba5a65bc852e6d69c1e1b502c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:33 +0000
Subject: [PATCH 001/115] fix: use top padding for rows and left padding for
 columns in 2D pooling

---
 src/acetone_nnet/templates/layers/template_Pooling2D.c.tpl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/templates/layers/template_Pooling2D.c.tpl b/src/acetone_nnet/templates/layers/template_Pooling2D.c.tpl
index 5bf6825..2f68a14 100644
--- a/src/acetone_nnet/templates/layers/template_Pooling2D.c.tpl
+++ b/src/acetone_nnet/templates/layers/template_Pooling2D.c.tpl
@@ -10,8 +10,8 @@
                 {
                     for (w = 0; w < {{pool_size}}; ++w)
                     {
-                        int ii = i*{{strides}} + h - {{pad_left}};
-                        int jj = j*{{strides}} + w - {{pad_top}};
+                        int ii = i*{{strides}} + h - {{pad_top}};
+                        int jj = j*{{strides}} + w - {{pad_left}};
                         if (ii >= 0 && ii < {{input_height}} && jj >= 0 && jj < {{input_width}})
                         {
                             {{{specific_function}}}
-- 
2.43.0


From c7e051a4d8e4d37a1650e0ebce1106995f5d85d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:33 +0000
Subject: [PATCH 002/115] fix: reduce over two axes with Max/Min compares and
 starts from the reduced elements

---
 src/acetone_nnet/generator/layers/reduce/Reduce.py      | 6 +++---
 src/acetone_nnet/templates/layers/template_Reduce.c.tpl | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/reduce/Reduce.py b/src/acetone_nnet/generator/layers/reduce/Reduce.py
index 00cb37d..604fdeb 100644
--- a/src/acetone_nnet/generator/layers/reduce/Reduce.py
+++ b/src/acetone_nnet/generator/layers/reduce/Reduce.py
@@ -221,7 +221,7 @@ class Reduce(Layer):
                 mustach_hash["reduced_dimension_2"] = self.input_height
                 mustach_hash["position"] = f"f + {self.input_width}*(j + {self.input_height}*i)"
                 if self.reduce_func in ("Max", "Min"):
-                    mustach_hash["starting_value"] = f"ctx->{output_str}[{self.input_width}*f]"
+                    mustach_hash["starting_value"] = f"ctx->{output_str}[f]"
 
             elif which_dim_to_reduc == "cw":
                 mustach_hash["output_dimension"] = self.output_height
@@ -229,7 +229,7 @@ class Reduce(Layer):
                 mustach_hash["reduced_dimension_2"] = self.input_width
                 mustach_hash["position"] = f"j + {self.input_width}*(f + {self.input_height}*i)"
                 if self.reduce_func in ("Max", "Min"):
-                    mustach_hash["starting_value"] = f"ctx->{output_str}[{self.input_height}*f]"
+                    mustach_hash["starting_value"] = f"ctx->{output_str}[{self.input_width}*f]"
 
             elif which_dim_to_reduc == "hw":
                 mustach_hash["output_dimension"] = self.output_channels
@@ -237,7 +237,7 @@ class Reduce(Layer):
                 mustach_hash["reduced_dimension_2"] = self.input_width
                 mustach_hash["position"] = f"j + {self.input_width}*(i + {self.input_height}*f)"
                 if self.reduce_func in ("Max", "Min"):
-                    mustach_hash["starting_value"] = f"ctx->{output_str}[{self.input_channels}*f]"
+                    mustach_hash["starting_value"] = f"ctx->{output_str}[{self.input_width * self.input_height}*f]"
 
             if self.reduce_func == "Mean":
                 mustach_hash["nb_elements"] = mustach_hash["reduced_dimension_1"] * mustach_hash["reduced_dimension_2"]
diff --git a/src/acetone_nnet/templates/layers/template_Reduce.c.tpl b/src/acetone_nnet/templates/layers/template_Reduce.c.tpl
index a6f7f1e..ca70a3e 100644
--- a/src/acetone_nnet/templates/layers/template_Reduce.c.tpl
+++ b/src/acetone_nnet/templates/layers/template_Reduce.c.tpl
@@ -35,13 +35,13 @@
             for (j = 0; j < {{reduced_dimension_2}}; ++j)
             {
                 {{#Max}}
-                if (ctx->output_{{road}}[{{position}}] > ctx->tensor_temp[f])
+                if (ctx->{{output_str}}[{{position}}] > ctx->tensor_temp[f])
                 {
                     ctx->tensor_temp[f] = ctx->{{output_str}}[{{position}}];
                 }
                 {{/Max}}
                 {{#Min}}
-                if (ctx->output_{{road}}[{{position}}] < ctx->tensor_temp[f])
+                if (ctx->{{output_str}}[{{position}}] < ctx->tensor_temp[f])
                 {
                     ctx->tensor_temp[f] = ctx->{{output_str}}[{{position}}];
                 }
-- 
2.43.0


From 2951112a5f70abd3b09326d6cd3977c12dec54a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:33 +0000
Subject: [PATCH 003/115] fix: a Reduce layer without axes reads its input and
 not its own output buffer

---
 src/acetone_nnet/generator/layers/reduce/Reduce.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acetone_nnet/generator/layers/reduce/Reduce.py b/src/acetone_nnet/generator/layers/reduce/Reduce.py
index 604fdeb..32ebdf3 100644
--- a/src/acetone_nnet/generator/layers/reduce/Reduce.py
+++ b/src/acetone_nnet/generator/layers/reduce/Reduce.py
@@ -172,7 +172,7 @@ class Reduce(Layer):
             if self.noop_with_empty_axes:
                 mustach_hash["none"] = True
                 mustach_hash["activation_function"] = self.activation_function.write_activation_str(
-                    f"ctx->output_{self.path}[k]")
+                    f"ctx->{output_str}[k]")
             else:
                 mustach_hash["all"] = True
                 mustach_hash["activation_function"] = self.activation_function.write_activation_str("reduced")
-- 
2.43.0


From c43c967722462e0719e67b969935c3d5015bc66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:47 +0000
Subject: [PATCH 004/115] fix: non constant padding applies the activation
 function once

---
 .../templates/layers/Pad/template_Pad_Non_Constant.c.tpl       | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/acetone_nnet/templates/layers/Pad/template_Pad_Non_Constant.c.tpl b/src/acetone_nnet/templates/layers/Pad/template_Pad_Non_Constant.c.tpl
index 7f732aa..cc86433 100644
--- a/src/acetone_nnet/templates/layers/Pad/template_Pad_Non_Constant.c.tpl
+++ b/src/acetone_nnet/templates/layers/Pad/template_Pad_Non_Constant.c.tpl
@@ -15,9 +15,6 @@
                 {{^linear}}
                 ctx->tensor_temp[j + {{output_width}} * (i + {{output_height}} * f)] = {{{activation_function}}};
                 {{/linear}}
-                {{#activation_function}}
-                ctx->tensor_temp[j + {{output_width}} * (i + {{output_height}} * f)] = {{{activation_function}}};
-                {{/activation_function}}
             }
         }
     }
-- 
2.43.0


From e52b502167aab8dc4f55dd64d33fbaa8212841f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:47 +0000
Subject: [PATCH 005/115] fix: im2col and im2row honour the dilation rate of
 the convolution

---
 .../generator/layers/convolution/Conv2DGemmTarget.py          | 1 +
 .../generator/layers/convolution/Conv2DStdGemm.py             | 2 ++
 src/acetone_nnet/templates/layers/Conv/template_im2col.c.tpl  | 4 ++--
 src/acetone_nnet/templates/layers/Conv/template_im2row.c.tpl  | 4 ++--
 4 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/convolution/Conv2DGemmTarget.py b/src/acetone_nnet/generator/layers/convolution/Conv2DGemmTarget.py
index 00cd4f7..7b1e64d 100644
--- a/src/acetone_nnet/generator/layers/convolution/Conv2DGemmTarget.py
+++ b/src/acetone_nnet/generator/layers/convolution/Conv2DGemmTarget.py
@@ -86,6 +86,7 @@ class Conv2DGemmTarget(Conv2DGemm):
         mustach_hash["output_height"] = self.output_height
         mustach_hash["output_width"] = self.output_width
         mustach_hash["strides"] = self.strides
+        mustach_hash["dilation_rate"] = self.dilation_rate
         mustach_hash["pad_top"] = self.pad_top
         mustach_hash["pad_left"] = self.pad_left
         mustach_hash["input_height"] = self.input_height
diff --git a/src/acetone_nnet/generator/layers/convolution/Conv2DStdGemm.py b/src/acetone_nnet/generator/layers/convolution/Conv2DStdGemm.py
index 5f01a03..5708bc6 100644
--- a/src/acetone_nnet/generator/layers/convolution/Conv2DStdGemm.py
+++ b/src/acetone_nnet/generator/layers/convolution/Conv2DStdGemm.py
@@ -54,6 +54,7 @@ class Conv2DStdGemm(Conv2DGemm):
         mustach_hash["output_height"] = self.output_height
         mustach_hash["output_width"] = self.output_width
         mustach_hash["strides"] = self.strides
+        mustach_hash["dilation_rate"] = self.dilation_rate
         mustach_hash["pad_top"] = self.pad_top
         mustach_hash["pad_left"] = self.pad_left
         mustach_hash["input_height"] = self.input_height
@@ -82,6 +83,7 @@ class Conv2DStdGemm(Conv2DGemm):
         mustach_hash["output_height"] = self.output_height
         mustach_hash["output_width"] = self.output_width
         mustach_hash["strides"] = self.strides
+        mustach_hash["dilation_rate"] = self.dilation_rate
         mustach_hash["pad_top"] = self.pad_top
         mustach_hash["pad_left"] = self.pad_left
         mustach_hash["input_height"] = self.input_height
diff --git a/src/acetone_nnet/templates/layers/Conv/template_im2col.c.tpl b/src/acetone_nnet/templates/layers/Conv/template_im2col.c.tpl
index f64e496..ac92c0b 100644
--- a/src/acetone_nnet/templates/layers/Conv/template_im2col.c.tpl
+++ b/src/acetone_nnet/templates/layers/Conv/template_im2col.c.tpl
@@ -1,8 +1,8 @@
     // im2col
     for (i = 0; i < {{patches_height}}; ++i)
     {
-        int i_offset = (i / {{kernel_w}}) % {{kernel_h}};
-        int j_offset = i % {{kernel_w}};
+        int i_offset = ((i / {{kernel_w}}) % {{kernel_h}}) * {{dilation_rate}};
+        int j_offset = (i % {{kernel_w}}) * {{dilation_rate}};
         int c_offset = i / {{kernel_h}} / {{kernel_w}};
         
         for (h = 0; h < {{output_height}}; ++h)
diff --git a/src/acetone_nnet/templates/layers/Conv/template_im2row.c.tpl b/src/acetone_nnet/templates/layers/Conv/template_im2row.c.tpl
index 9d5e2e0..f50a58b 100644
--- a/src/acetone_nnet/templates/layers/Conv/template_im2row.c.tpl
+++ b/src/acetone_nnet/templates/layers/Conv/template_im2row.c.tpl
@@ -1,8 +1,8 @@
     // im2row
     for (i = 0; i < {{patches_height}}; ++i)
     {
-        int i_offset = (i / {{kernel_w}}) % {{kernel_h}};
-        int j_offset = i % {{kernel_w}};
+        int i_offset = ((i / {{kernel_w}}) % {{kernel_h}}) * {{dilation_rate}};
+        int j_offset = (i % {{kernel_w}}) * {{dilation_rate}};
         int c_offset = i / {{kernel_h}} / {{kernel_w}};
         for (h = 0; h < {{output_height}}; ++h)
         {
-- 
2.43.0


From 2531b9b493dd4661efa535a2bcae78fff9930606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:47 +0000
Subject: [PATCH 006/115] fix: softmax along an axis applies the fused
 activation function

---
 src/acetone_nnet/generator/layers/softmax/SoftmaxDefault.py | 6 +++---
 src/acetone_nnet/templates/layers/template_Softmax.c.tpl    | 4 ++++
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/softmax/SoftmaxDefault.py b/src/acetone_nnet/generator/layers/softmax/SoftmaxDefault.py
index 9bdc014..c1f70f5 100644
--- a/src/acetone_nnet/generator/layers/softmax/SoftmaxDefault.py
+++ b/src/acetone_nnet/generator/layers/softmax/SoftmaxDefault.py
@@ -49,9 +49,9 @@ class SoftmaxDefault(Softmax):
 
         mustach_hash["1D"] = self.one_dimension
 
-        if self.one_dimension:
-            mustach_hash["size"] = self.size
-        else:
+        mustach_hash["size"] = self.size
+
+        if not self.one_dimension:
             mustach_hash["output_channels"] = self.output_channels
             mustach_hash["output_height"] = self.output_height
             mustach_hash["output_width"] = self.output_width
diff --git a/src/acetone_nnet/templates/layers/template_Softmax.c.tpl b/src/acetone_nnet/templates/layers/template_Softmax.c.tpl
index 3715fc7..4f3e22a 100644
--- a/src/acetone_nnet/templates/layers/template_Softmax.c.tpl
+++ b/src/acetone_nnet/templates/layers/template_Softmax.c.tpl
@@ -32,4 +32,8 @@
             }
         }
     }
+    for (j = 0; j < {{size}}; ++j)
+    {
+        ctx->output_{{road}}[j] = {{{activation_function}}};
+    }
     {{/1D}}
\ No newline at end of file
-- 
2.43.0


From a7fc74c1018e09c6a7a2704caf264095c6b3e694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:18 +0000
Subject: [PATCH 007/115] fix: python reference of pooling ignores padded
 elements and applies the activation function

---
 .../generator/layers/pooling/Pooling2D.py        | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/pooling/Pooling2D.py b/src/acetone_nnet/generator/layers/pooling/Pooling2D.py
index 802675f..cc12aa7 100644
--- a/src/acetone_nnet/generator/layers/pooling/Pooling2D.py
+++ b/src/acetone_nnet/generator/layers/pooling/Pooling2D.py
@@ -145,18 +145,14 @@ class Pooling2D(Layer):
 
         output = np.zeros((self.input_channels, self.output_height, self.output_width))
 
-        if self.pad_right and self.pad_left and self.pad_top and self.pad_bottom:
-            input_padded = np.zeros((self.input_channels, self.input_height + self.pad_top + self.pad_bottom,
-                                     self.input_width + self.pad_left + self.pad_right))
-            input_padded[:, self.pad_top:-self.pad_bottom, self.pad_left:-self.pad_right] = input_array
-        else:
-            input_padded = input_array
-
         for c in range(self.input_channels):
             for i in range(self.output_height):
                 for j in range(self.output_width):
+                    # Padded elements do not take part in the pooling
+                    top = i * self.strides - self.pad_top
+                    left = j * self.strides - self.pad_left
                     output[c, i, j] = self.pooling_function(
-                        input_padded[c, i * self.strides:i * self.strides + self.pool_size,
-                        j * self.strides:j * self.strides + self.pool_size])
+                        input_array[c, max(top, 0):min(top + self.pool_size, self.input_height),
+                        max(left, 0):min(left + self.pool_size, self.input_width)])
 
-        return output
\ No newline at end of file
+        return self.activation_function.compute(output)
\ No newline at end of file
-- 
2.43.0


From 2a1452f5f0d30d709b95b5b4a38d612d720de77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:18 +0000
Subject: [PATCH 008/115] fix: python reference of the convolution honours the
 dilation rate

---
 src/acetone_nnet/generator/layers/convolution/Conv2D.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/convolution/Conv2D.py b/src/acetone_nnet/generator/layers/convolution/Conv2D.py
index 09d82eb..1a34b85 100644
--- a/src/acetone_nnet/generator/layers/convolution/Conv2D.py
+++ b/src/acetone_nnet/generator/layers/convolution/Conv2D.py
@@ -267,6 +267,9 @@ class Conv2D(Layer):
         else:
             input_padded = input_array
 
+        dilation = self.dilation_rate
+        window_h = dilation * (self.kernel_h - 1) + 1
+        window_w = dilation * (self.kernel_w - 1) + 1
         for f in range(self.nb_filters):
             for i in range(self.output_height):
                 for j in range(self.output_width):
@@ -274,8 +277,8 @@ class Conv2D(Layer):
                         self.weights[f, :, :, :]
                         * input_padded[
                             ::self.group,
-                            i * self.strides : i * self.strides + self.kernel_h,
-                            j * self.strides : j * self.strides + self.kernel_w,
+                            i * self.strides : i * self.strides + window_h : dilation,
+                            j * self.strides : j * self.strides + window_w : dilation,
                         ]
                     )
                     output[f, i, j] = np.sum(w) + self.biases[f]
-- 
2.43.0


From 65a752c2ed26489d24649ac25fa61499fa345abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:18 +0000
Subject: [PATCH 009/115] fix: python reference of Average does not overwrite
 its first input

---
 src/acetone_nnet/generator/layers/broadcast/average/Average.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acetone_nnet/generator/layers/broadcast/average/Average.py b/src/acetone_nnet/generator/layers/broadcast/average/Average.py
index befd1f7..505594a 100644
--- a/src/acetone_nnet/generator/layers/broadcast/average/Average.py
+++ b/src/acetone_nnet/generator/layers/broadcast/average/Average.py
@@ -113,7 +113,7 @@ class Average(Layer):
 
     def forward_path_layer(self: Self, input_arrays: np.ndarray) -> np.ndarray:
         """Compute output of layer."""
-        output = input_arrays[0]
+        output = np.copy(input_arrays[0])
         for input_array in input_arrays[1:]:
             output += input_array
         return self.activation_function.compute(output / (len(input_arrays)))
-- 
2.43.0


From 72e24cdf3c78674edadbff9eac6b4dda2b5c272a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:18 +0000
Subject: [PATCH 010/115] fix: python reference of reduce, gather, tile,
 transpose, softmax and resize layers applies the fused activation function

---
 src/acetone_nnet/generator/layers/gather/Gather.py        | 3 ++-
 .../generator/layers/gather_elements/GatherElements.py    | 2 +-
 .../generator/layers/reduce/reduce_max/ReduceMax.py       | 8 +++++---
 .../generator/layers/reduce/reduce_mean/ReduceMean.py     | 8 +++++---
 .../generator/layers/reduce/reduce_min/ReduceMin.py       | 8 +++++---
 .../generator/layers/reduce/reduce_prod/ReduceProd.py     | 8 +++++---
 .../generator/layers/reduce/reduce_sum/ReduceSum.py       | 8 +++++---
 .../generator/layers/resize/resize_cubic/ResizeCubic.py   | 2 +-
 .../generator/layers/resize/resize_linear/ResizeLinear.py | 2 +-
 .../layers/resize/resize_nearest/ResizeNearest.py         | 2 +-
 src/acetone_nnet/generator/layers/softmax/Softmax.py      | 3 ++-
 src/acetone_nnet/generator/layers/tile/Tile.py            | 2 +-
 src/acetone_nnet/generator/layers/transpose/Transpose.py  | 2 +-
 13 files changed, 35 insertions(+), 23 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/gather/Gather.py b/src/acetone_nnet/generator/layers/gather/Gather.py
index 55a87d0..3ca4e9b 100644
--- a/src/acetone_nnet/generator/layers/gather/Gather.py
+++ b/src/acetone_nnet/generator/layers/gather/Gather.py
@@ -130,4 +130,5 @@ class Gather(Layer):
             self.input_channels,
             self.input_height,
             self.input_width)
-        return np.take(input_array, indices=self.indices, axis=self.axis - 1)
\ No newline at end of file
+        output = np.take(input_array, indices=self.indices, axis=self.axis - 1)
+        return self.activation_function.compute(output)
\ No newline at end of file
diff --git a/src/acetone_nnet/generator/layers/gather_elements/GatherElements.py b/src/acetone_nnet/generator/layers/gather_elements/GatherElements.py
index 127a1d6..acd32da 100644
--- a/src/acetone_nnet/generator/layers/gather_elements/GatherElements.py
+++ b/src/acetone_nnet/generator/layers/gather_elements/GatherElements.py
@@ -155,4 +155,4 @@ class GatherElements(Layer):
                         output[f, i, j] = input_array[f, self.indices[0, f, i, j], j]
                     elif self.axis == 3:
                         output[f, i, j] = input_array[f, i, self.indices[0, f, i, j]]
-        return output
\ No newline at end of file
+        return self.activation_function.compute(output)
\ No newline at end of file
diff --git a/src/acetone_nnet/generator/layers/reduce/reduce_max/ReduceMax.py b/src/acetone_nnet/generator/layers/reduce/reduce_max/ReduceMax.py
index 4a71509..44775c5 100644
--- a/src/acetone_nnet/generator/layers/reduce/reduce_max/ReduceMax.py
+++ b/src/acetone_nnet/generator/layers/reduce/reduce_max/ReduceMax.py
@@ -137,9 +137,11 @@ class ReduceMax(Layer):
         input_array = input_array.reshape(1, self.input_channels, self.input_height, self.input_width)
         if self.axes == ():
             if self.noop_with_empty_axes:
-                return input_array
-            return np.max(input_array, axis=None, keepdims=self.keepdims)
-        return np.max(input_array, axis=self.axes, keepdims=self.keepdims)
+                return self.activation_function.compute(input_array)
+            output = np.max(input_array, axis=None, keepdims=self.keepdims)
+        else:
+            output = np.max(input_array, axis=self.axes, keepdims=self.keepdims)
+        return self.activation_function.compute(output)
 
 
     def generate_inference_code_layer(self: Self) -> str:
diff --git a/src/acetone_nnet/generator/layers/reduce/reduce_mean/ReduceMean.py b/src/acetone_nnet/generator/layers/reduce/reduce_mean/ReduceMean.py
index a24ff1b..f7c75a6 100644
--- a/src/acetone_nnet/generator/layers/reduce/reduce_mean/ReduceMean.py
+++ b/src/acetone_nnet/generator/layers/reduce/reduce_mean/ReduceMean.py
@@ -119,9 +119,11 @@ class ReduceMean(Layer):
         input_array = input_array.reshape(1, self.input_channels, self.input_height, self.input_width)
         if self.axes == ():
             if self.noop_with_empty_axes:
-                return input_array
-            return np.mean(input_array, axis=None, keepdims=self.keepdims)
-        return np.mean(input_array, axis=self.axes, keepdims=self.keepdims)
+                return self.activation_function.compute(input_array)
+            output = np.mean(input_array, axis=None, keepdims=self.keepdims)
+        else:
+            output = np.mean(input_array, axis=self.axes, keepdims=self.keepdims)
+        return self.activation_function.compute(output)
 
     def generate_inference_code_layer(self: Self) -> str:
         """Generate computation code for layer."""
diff --git a/src/acetone_nnet/generator/layers/reduce/reduce_min/ReduceMin.py b/src/acetone_nnet/generator/layers/reduce/reduce_min/ReduceMin.py
index 8a864e2..9f86060 100644
--- a/src/acetone_nnet/generator/layers/reduce/reduce_min/ReduceMin.py
+++ b/src/acetone_nnet/generator/layers/reduce/reduce_min/ReduceMin.py
@@ -123,6 +123,8 @@ class ReduceMin(Layer):
         input_array = input_array.reshape(1, self.input_channels, self.input_height, self.input_width)
         if self.axes == ():
             if self.noop_with_empty_axes:
-                return input_array
-            return np.min(input_array, axis=None, keepdims=self.keepdims)
-        return np.min(input_array, axis=self.axes, keepdims=self.keepdims)
\ No newline at end of file
+                return self.activation_function.compute(input_array)
+            output = np.min(input_array, axis=None, keepdims=self.keepdims)
+        else:
+            output = np.min(input_array, axis=self.axes, keepdims=self.keepdims)
+        return self.activation_function.compute(output)
diff --git a/src/acetone_nnet/generator/layers/reduce/reduce_prod/ReduceProd.py b/src/acetone_nnet/generator/layers/reduce/reduce_prod/ReduceProd.py
index 881090c..4978f15 100644
--- a/src/acetone_nnet/generator/layers/reduce/reduce_prod/ReduceProd.py
+++ b/src/acetone_nnet/generator/layers/reduce/reduce_prod/ReduceProd.py
@@ -124,6 +124,8 @@ class ReduceProd(Layer):
         input_array = input_array.reshape(1, self.input_channels, self.input_height, self.input_width)
         if self.axes == ():
             if self.noop_with_empty_axes:
-                return input_array
-            return np.multiply.reduce(input_array, axis=None, keepdims=self.keepdims)
-        return np.multiply.reduce(input_array, axis=self.axes, keepdims=self.keepdims)
\ No newline at end of file
+                return self.activation_function.compute(input_array)
+            output = np.multiply.reduce(input_array, axis=None, keepdims=self.keepdims)
+        else:
+            output = np.multiply.reduce(input_array, axis=self.axes, keepdims=self.keepdims)
+        return self.activation_function.compute(output)
diff --git a/src/acetone_nnet/generator/layers/reduce/reduce_sum/ReduceSum.py b/src/acetone_nnet/generator/layers/reduce/reduce_sum/ReduceSum.py
index 66bfbfb..f2879fb 100644
--- a/src/acetone_nnet/generator/layers/reduce/reduce_sum/ReduceSum.py
+++ b/src/acetone_nnet/generator/layers/reduce/reduce_sum/ReduceSum.py
@@ -124,6 +124,8 @@ class ReduceSum(Layer):
         input_array = input_array.reshape(1, self.input_channels, self.input_height, self.input_width)
         if self.axes == ():
             if self.noop_with_empty_axes:
-                return input_array
-            return np.add.reduce(input_array, axis=None, keepdims=self.keepdims)
-        return np.add.reduce(input_array, axis=self.axes, keepdims=self.keepdims)
\ No newline at end of file
+                return self.activation_function.compute(input_array)
+            output = np.add.reduce(input_array, axis=None, keepdims=self.keepdims)
+        else:
+            output = np.add.reduce(input_array, axis=self.axes, keepdims=self.keepdims)
+        return self.activation_function.compute(output)
diff --git a/src/acetone_nnet/generator/layers/resize/resize_cubic/ResizeCubic.py b/src/acetone_nnet/generator/layers/resize/resize_cubic/ResizeCubic.py
index eab6b2e..91ea620 100644
--- a/src/acetone_nnet/generator/layers/resize/resize_cubic/ResizeCubic.py
+++ b/src/acetone_nnet/generator/layers/resize/resize_cubic/ResizeCubic.py
@@ -99,7 +99,7 @@ class ResizeCubic(Resize):
                                        + coeff2 * self.cubic_interpolation_1_d(input_array, f, x0, y0, x - x0)
                                        + coeff3 * self.cubic_interpolation_1_d(input_array, f, x0, y0 + 1, x - x0)
                                        + coeff4 * self.cubic_interpolation_1_d(input_array, f, x0, y0 + 2, x - x0))
-        return output
+        return self.activation_function.compute(output)
 
     def generate_inference_code_layer(self: Self) -> str:
         """Generate computation code for layer."""
diff --git a/src/acetone_nnet/generator/layers/resize/resize_linear/ResizeLinear.py b/src/acetone_nnet/generator/layers/resize/resize_linear/ResizeLinear.py
index c980e42..9a35a99 100644
--- a/src/acetone_nnet/generator/layers/resize/resize_linear/ResizeLinear.py
+++ b/src/acetone_nnet/generator/layers/resize/resize_linear/ResizeLinear.py
@@ -73,4 +73,4 @@ class ResizeLinear(Resize):
                                         + f12 * (x1 - x) * (y - y0) + f22 * (x - x0) * (y - y0))
                                        / ((x1 - x0) * (y1 - y0)))
 
-        return output
+        return self.activation_function.compute(output)
diff --git a/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearest.py b/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearest.py
index fdf8b18..59f3a46 100644
--- a/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearest.py
+++ b/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearest.py
@@ -89,4 +89,4 @@ class ResizeNearest(Resize):
                     y0 = self.nearest_mode_implem_mapping[self.nearest_mode](y)
 
                     output[f, i, j] = input_array[f, x0, y0]
-        return output
+        return self.activation_function.compute(output)
diff --git a/src/acetone_nnet/generator/layers/softmax/Softmax.py b/src/acetone_nnet/generator/layers/softmax/Softmax.py
index bc792ff..abc3b91 100644
--- a/src/acetone_nnet/generator/layers/softmax/Softmax.py
+++ b/src/acetone_nnet/generator/layers/softmax/Softmax.py
@@ -108,4 +108,5 @@ class Softmax(Layer):
             self.axis = -1
 
         exp = np.exp(input_array, dtype=float)
-        return exp / np.sum(exp, keepdims=True, axis=self.axis)
\ No newline at end of file
+        output = exp / np.sum(exp, keepdims=True, axis=self.axis)
+        return self.activation_function.compute(output)
\ No newline at end of file
diff --git a/src/acetone_nnet/generator/layers/tile/Tile.py b/src/acetone_nnet/generator/layers/tile/Tile.py
index af388e9..56d2812 100644
--- a/src/acetone_nnet/generator/layers/tile/Tile.py
+++ b/src/acetone_nnet/generator/layers/tile/Tile.py
@@ -107,4 +107,4 @@ class Tile(Layer):
     ) -> np.ndarray:
         """Compute output of layer."""
         input_array = input_array.reshape((self.input_channels, self.input_height, self.input_width))
-        return np.tile(input_array, self.repeats[1:])
\ No newline at end of file
+        return self.activation_function.compute(np.tile(input_array, self.repeats[1:]))
\ No newline at end of file
diff --git a/src/acetone_nnet/generator/layers/transpose/Transpose.py b/src/acetone_nnet/generator/layers/transpose/Transpose.py
index b29936f..cee3d6c 100644
--- a/src/acetone_nnet/generator/layers/transpose/Transpose.py
+++ b/src/acetone_nnet/generator/layers/transpose/Transpose.py
@@ -117,4 +117,4 @@ class Transpose(Layer):
             input_array,
             (1, self.input_channels, self.input_height, self.input_width),
         )
-        return np.transpose(input_array, self.perm)
\ No newline at end of file
+        return self.activation_function.compute(np.transpose(input_array, self.perm))
\ No newline at end of file
-- 
2.43.0


From 60d537714c08b00c3dbe1833f24017354d79bad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:27 +0000
Subject: [PATCH 011/115] fix: python reference of Add applies the constant
 operand

---
 src/acetone_nnet/generator/layers/broadcast/add/Add.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/acetone_nnet/generator/layers/broadcast/add/Add.py b/src/acetone_nnet/generator/layers/broadcast/add/Add.py
index 6e5ba75..d0deb72 100644
--- a/src/acetone_nnet/generator/layers/broadcast/add/Add.py
+++ b/src/acetone_nnet/generator/layers/broadcast/add/Add.py
@@ -132,6 +132,8 @@ class Add(Layer):
             output = np.reshape(input_arrays, self.input_shapes[0][1:]).astype(
                 dtype=getattr(self, "temp_pydtype", input_arrays[0].dtype),
             )
+        if self.constant is not None:
+            output = output + np.reshape(self.constant, self.input_shapes[-1][1:])
         return self.activation_function.compute(output)
 
     def generate_inference_code_layer(self: Self) -> str:
-- 
2.43.0


From d9762c7f7e54b63917655a9700df56473f90d618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:07 +0000
Subject: [PATCH 012/115] fix: keep layer indices distinct when fused layers
 are not numbered consecutively

update_indices shifted every layer numbered above the kept layer instead of above
the removed one: in a graph whose branches are numbered in an interleaved way, two
layers (and their parameters in the generated code) got the same index.
---
 src/acetone_nnet/pattern_matching/Pattern.py  | 21 ++++++++++++-------
 .../patterns/FuseActivationLayers.py          |  2 +-
 .../patterns/FuseConvBatchNorm.py             |  2 +-
 .../patterns/FuseMatMulAdd.py                 |  2 +-
 .../patterns/FuseSigmoidMul.py                |  2 +-
 5 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/acetone_nnet/pattern_matching/Pattern.py b/src/acetone_nnet/pattern_matching/Pattern.py
index d3e06e2..9dd7448 100644
--- a/src/acetone_nnet/pattern_matching/Pattern.py
+++ b/src/acetone_nnet/pattern_matching/Pattern.py
@@ -56,10 +56,15 @@ def update_indices(
         layers: list[Layer],
         shift: int,
         dict_cst: dict[int,int],
+        removed_layer: Layer | None = None,
 ) -> None:
-    """Update the indices of the layers after index by shifting them of shift."""
+    """Update the indices of the layers after index by shifting them of shift.
+
+    The reference index is the one of removed_layer if given, since layers are not
+    necessarily sorted by index, or the one of the layer at position index otherwise.
+    """
     nb_layers = len(layers)
-    ref = layers[index].idx
+    ref = layers[index].idx if removed_layer is None else removed_layer.idx
 
     if index >= nb_layers:
         m = f"Index out of bound ({index} > {nb_layers})"
@@ -68,13 +73,13 @@ def update_indices(
         m = f"Shift can't superior to the index ({shift} > {index})"
         raise ValueError(m)
 
-    for i in range(nb_layers):
-        if layers[i].idx > ref:
-            cst_index = dict_cst.get(layers[i].idx, None)
+    for layer in sorted(layers, key=lambda x: x.idx):
+        if layer.idx > ref:
+            cst_index = dict_cst.get(layer.idx, None)
             if cst_index is not None:
-                dict_cst.pop(layers[i].idx)
-                dict_cst[layers[i].idx - shift] = cst_index
-            layers[i].idx = layers[i].idx - shift
+                dict_cst.pop(layer.idx)
+                dict_cst[layer.idx - shift] = cst_index
+            layer.idx = layer.idx - shift
 
 def update_next_layers(removed_layer: Layer, replacement_layer:Layer) -> None:
     """Link the layers in removed_layer.next_layer to the replacement_layer as input."""
diff --git a/src/acetone_nnet/pattern_matching/patterns/FuseActivationLayers.py b/src/acetone_nnet/pattern_matching/patterns/FuseActivationLayers.py
index 560173d..10aee6b 100644
--- a/src/acetone_nnet/pattern_matching/patterns/FuseActivationLayers.py
+++ b/src/acetone_nnet/pattern_matching/patterns/FuseActivationLayers.py
@@ -86,7 +86,7 @@ class FuseActivationLayer(Pattern):
 
         # Updating the list of layers
         layers.pop(index)
-        update_indices(index - 1, layers, 1, dict_cst)
+        update_indices(index - 1, layers, 1, dict_cst, activation_layer)
 
         return self.pattern.format(
             layer.idx,
diff --git a/src/acetone_nnet/pattern_matching/patterns/FuseConvBatchNorm.py b/src/acetone_nnet/pattern_matching/patterns/FuseConvBatchNorm.py
index 5a7daf5..1088ead 100644
--- a/src/acetone_nnet/pattern_matching/patterns/FuseConvBatchNorm.py
+++ b/src/acetone_nnet/pattern_matching/patterns/FuseConvBatchNorm.py
@@ -104,7 +104,7 @@ class FuseConvBatchNorm(Pattern):
 
         # Updating the list of layers
         layers.pop(index)
-        update_indices(index - 1, layers, 1, dict_cst)
+        update_indices(index - 1, layers, 1, dict_cst, batch_norm)
 
         return self.pattern.format(index - 1, index, index - 1), layers.index(conv)
 
diff --git a/src/acetone_nnet/pattern_matching/patterns/FuseMatMulAdd.py b/src/acetone_nnet/pattern_matching/patterns/FuseMatMulAdd.py
index 8e18e08..1aae510 100644
--- a/src/acetone_nnet/pattern_matching/patterns/FuseMatMulAdd.py
+++ b/src/acetone_nnet/pattern_matching/patterns/FuseMatMulAdd.py
@@ -117,7 +117,7 @@ class MatMulAddToDense(Pattern):
         # Updating the list of layers
         layers[index] = dense
         layers.pop(index + 1)
-        update_indices(index, layers, 1, dict_cst)
+        update_indices(index, layers, 1, dict_cst, add)
 
         return self.pattern.format(index, index + 1, index), layers.index(dense)
 
diff --git a/src/acetone_nnet/pattern_matching/patterns/FuseSigmoidMul.py b/src/acetone_nnet/pattern_matching/patterns/FuseSigmoidMul.py
index 7d4d79a..6e67c8f 100644
--- a/src/acetone_nnet/pattern_matching/patterns/FuseSigmoidMul.py
+++ b/src/acetone_nnet/pattern_matching/patterns/FuseSigmoidMul.py
@@ -118,7 +118,7 @@ class SigmoidMultiplyToSilu(Pattern):
         # Updating the list of layers
         layers[index] = silu
         layers.remove(multiply)
-        update_indices(index, layers, 1, dict_cst)
+        update_indices(index, layers, 1, dict_cst, multiply)
 
         return (self.pattern.format(layer.idx, sigmoid.idx, multiply.idx, silu.idx),
                 layers.index(layer))
-- 
2.43.0


From d72edac804a25cde28e261626a7fc39d7dc8d204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:06 +0000
Subject: [PATCH 013/115] fix: do not fuse an activation into a layer that
 never applies it

---
 .../pattern_matching/patterns/FuseActivationLayers.py  | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/pattern_matching/patterns/FuseActivationLayers.py b/src/acetone_nnet/pattern_matching/patterns/FuseActivationLayers.py
index 10aee6b..225bf3b 100644
--- a/src/acetone_nnet/pattern_matching/patterns/FuseActivationLayers.py
+++ b/src/acetone_nnet/pattern_matching/patterns/FuseActivationLayers.py
@@ -21,7 +21,12 @@
 from typing_extensions import Self
 
 from acetone_nnet.generator.activation_functions import Linear
-from acetone_nnet.generator.layers import ActivationLayer
+from acetone_nnet.generator.layers import (
+    ActivationLayer,
+    ConstantLayer,
+    Flatten,
+    InputLayer,
+)
 from acetone_nnet.ir import Layer
 from acetone_nnet.pattern_matching.Pattern import (
     Pattern,
@@ -60,6 +65,9 @@ class FuseActivationLayer(Pattern):
             return False
         if not hasattr(layer.previous_layer[0], "activation_function"):
             return False
+        # These layers only store or forward data, and never apply an activation
+        if isinstance(layer.previous_layer[0], InputLayer | Flatten | ConstantLayer):
+            return False
         if not isinstance(layer.previous_layer[0].activation_function, Linear):
             return False
         if len(layer.previous_layer[0].next_layer) != 1:
-- 
2.43.0


From 7f93080ce129cf45b64e4e4fdc7e90243785f647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:06 +0000
Subject: [PATCH 014/115] fix: keep the activation of a multiplication replaced
 by silu

---
 src/acetone_nnet/pattern_matching/patterns/FuseSigmoidMul.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/acetone_nnet/pattern_matching/patterns/FuseSigmoidMul.py b/src/acetone_nnet/pattern_matching/patterns/FuseSigmoidMul.py
index 6e67c8f..2441c20 100644
--- a/src/acetone_nnet/pattern_matching/patterns/FuseSigmoidMul.py
+++ b/src/acetone_nnet/pattern_matching/patterns/FuseSigmoidMul.py
@@ -62,6 +62,7 @@ class SigmoidMultiplyToSilu(Pattern):
         #   - the next layer is a Multiply
         #   - the next layer has exactly two parents
         #   - the next layer is in previous_layer.next_layer
+        #   - the next layer has no activation function
         if len(layer.previous_layer) != 1:
             return False
         if not isinstance(layer.previous_layer[0].activation_function, Linear):
@@ -78,6 +79,8 @@ class SigmoidMultiplyToSilu(Pattern):
             return False
         if layer.next_layer[0] not in layer.previous_layer[0].next_layer:
             return False
+        if not isinstance(layer.next_layer[0].activation_function, Linear):
+            return False
 
         return True
 
-- 
2.43.0


From e89e79dab3d357103e68d29a69e26ab550f8e6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:28 +0000
Subject: [PATCH 015/115] fix: release the output of an operand used twice by a
 layer only once

---
 src/acetone_nnet/graph/graph_interpretor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/graph/graph_interpretor.py b/src/acetone_nnet/graph/graph_interpretor.py
index 0663cf2..8afb89a 100644
--- a/src/acetone_nnet/graph/graph_interpretor.py
+++ b/src/acetone_nnet/graph/graph_interpretor.py
@@ -90,7 +90,8 @@ def assign_liveliness_index(execution_order: list[Layer]) -> dict[int, int]:
     for n in execution_order:
         assert n.idx not in indexes
         # Free the indices of all predecessors' outputs after use
-        for p in n.previous_layer:
+        # (only once for a predecessor used as several operands)
+        for p in {p.idx: p for p in n.previous_layer}.values():
             assert p.idx in indexes
             # Check all consumers of a tensor have been executed (except the current one)
             if all(s.idx in indexes for s in p.next_layer if s.idx != n.idx):
@@ -116,7 +117,7 @@ def assign_cst(
     for layer in execution_order:
         visited_layers.add(layer.idx)
         # Free cst if all successors have been visited
-        for parent in layer.previous_layer:
+        for parent in {p.idx: p for p in layer.previous_layer}.values():
             if parent.idx in dict_cst and all(
                 s.idx in visited_layers for s in parent.next_layer
             ):
-- 
2.43.0


From 3b902689df1583aa0388742bbe5b11d85e703720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:08 +0000
Subject: [PATCH 016/115] fix: only fuse an activation stored where its
 producer is

---
 .../pattern_matching/patterns/FuseActivationLayers.py          | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/acetone_nnet/pattern_matching/patterns/FuseActivationLayers.py b/src/acetone_nnet/pattern_matching/patterns/FuseActivationLayers.py
index 225bf3b..78d8c8d 100644
--- a/src/acetone_nnet/pattern_matching/patterns/FuseActivationLayers.py
+++ b/src/acetone_nnet/pattern_matching/patterns/FuseActivationLayers.py
@@ -72,6 +72,9 @@ class FuseActivationLayer(Pattern):
             return False
         if len(layer.previous_layer[0].next_layer) != 1:
             return False
+        # The fused layer is stored where the readers of the activation look for it
+        if layer.previous_layer[0].path != layer.path:
+            return False
 
         return True
 
-- 
2.43.0


From 18cff8b06e67dd30423672ce9286fea393fd9766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:48 +0000
Subject: [PATCH 017/115] fix: import the constant operands of Sub, Mul and Div
 like those of Add

---
 .../importers/ONNX_importer/create_layer.py   | 80 ++++---------------
 1 file changed, 15 insertions(+), 65 deletions(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index 7217f56..8084bf3 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -1165,6 +1165,18 @@ def _collect_node_inputs(
     return collected
 
 
+def _broadcast_operands(
+    model: onnx.ModelProto,
+    node: onnx.NodeProto,
+) -> tuple[list[str], list[list[int]]]:
+    """Collect the names and 4D shapes of the operands, constants included."""
+    names, shapes = [], []
+    for name, shape in _collect_node_inputs(model, node):
+        names.append(name)
+        shapes.append([1] * (4 - len(shape)) + list(shape))
+    return names, np.array(shapes)
+
+
 # create a layer Add
 def create_add(
     node: onnx.NodeProto,
@@ -1204,31 +1216,10 @@ def create_div(
     model: onnx.ModelProto,
 ) -> Divide:
     """Create a Divide layer."""
-    constant_length = 4
-
-    input_shapes = []
-    constant = np.ones(get_shape(node.input[0], model))
-    dict_input[idx] = []
-    for input_value in node.input:
-        factor = look_for_initializer(input_value, model)
-        if factor:
-            constant = constant / onnx.numpy_helper.to_array(factor)
-        else:
-            dict_input[idx].append(input_value)
-            input_shapes.append(get_shape(input_value, model))
-
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
     dict_output[node.output[0]] = idx
-    # FIXME It seems like a test is missing here on the values of constant
-    if (constant != np.ones(constant.shape)).all():
-        if len(constant.shape) < constant_length:
-            for _i in range(4 - len(constant.shape)):
-                constant = np.expand_dims(constant, axis=0)
-        input_shapes.append(list(constant.shape))
-    else:
-        constant = None
-    input_shapes = np.array(input_shapes)
+    dict_input[idx], input_shapes = _broadcast_operands(model, node)
     return Divide(
         original_name=node.name,
         idx=idx,
@@ -1236,7 +1227,6 @@ def create_div(
         input_shapes=input_shapes,
         output_shape=output_shape,
         activation_function=Linear(),
-        constant=constant,
     )
 
 
@@ -1249,29 +1239,10 @@ def create_mul(
     model: onnx.ModelProto,
 ) -> Multiply:
     """Create Multiply layer."""
-    constant_length = 4
-
-    input_shapes = []
-    constant = np.ones(get_shape(node.input[0], model))
-    dict_input[idx] = []
-    for input_value in node.input:
-        factor = look_for_initializer(input_value, model)
-        if factor:
-            constant = constant * onnx.numpy_helper.to_array(factor)
-        else:
-            dict_input[idx].append(input_value)
-            input_shapes.append(get_shape(input_value, model))
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
     dict_output[node.output[0]] = idx
-    if (constant != np.ones(constant.shape)).all():
-        if len(constant.shape) < constant_length:
-            for _i in range(4 - len(constant.shape)):
-                constant = np.expand_dims(constant, axis=0)
-        input_shapes.append(list(constant.shape))
-    else:
-        constant = None
-    input_shapes = np.array(input_shapes)
+    dict_input[idx], input_shapes = _broadcast_operands(model, node)
     return Multiply(
         original_name=node.name,
         idx=idx,
@@ -1279,7 +1250,6 @@ def create_mul(
         input_shapes=input_shapes,
         output_shape=output_shape,
         activation_function=Linear(),
-        constant=constant,
     )
 
 
@@ -1292,29 +1262,10 @@ def create_sub(
     model: onnx.ModelProto,
 ) -> Subtract:
     """Create a Subtract layer."""
-    constant_length = 4
-
-    input_shapes = []
-    constant = np.zeros(get_shape(node.input[0], model))
-    dict_input[idx] = []
-    for input_value in node.input:
-        factor = look_for_initializer(input_value, model)
-        if factor:
-            constant = constant - onnx.numpy_helper.to_array(factor)
-        else:
-            dict_input[idx].append(input_value)
-            input_shapes.append(get_shape(input_value, model))
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
     dict_output[node.output[0]] = idx
-    if (constant != np.zeros(constant.shape)).all():
-        if len(constant.shape) < constant_length:
-            for _i in range(4 - len(constant.shape)):
-                constant = np.expand_dims(constant, axis=0)
-        input_shapes.append(list(constant.shape))
-    else:
-        constant = None
-    input_shapes = np.array(input_shapes)
+    dict_input[idx], input_shapes = _broadcast_operands(model, node)
     return Subtract(
         original_name=node.name,
         idx=idx,
@@ -1322,7 +1273,6 @@ def create_sub(
         input_shapes=input_shapes,
         output_shape=output_shape,
         activation_function=Linear(),
-        constant=constant,
     )
 
 
-- 
2.43.0


From cfadc62666731d1bdb0802f951b23efae7079b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:48 +0000
Subject: [PATCH 018/115] fix: python reference of broadcasts whose first
 operand is the smaller one

---
 src/acetone_nnet/generator/layers/broadcast/add/Add.py        | 4 ++--
 src/acetone_nnet/generator/layers/broadcast/divide/Divide.py  | 2 +-
 .../generator/layers/broadcast/multiply/Multiply.py           | 2 +-
 .../generator/layers/broadcast/subtract/Subtract.py           | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/broadcast/add/Add.py b/src/acetone_nnet/generator/layers/broadcast/add/Add.py
index d0deb72..723dc76 100644
--- a/src/acetone_nnet/generator/layers/broadcast/add/Add.py
+++ b/src/acetone_nnet/generator/layers/broadcast/add/Add.py
@@ -118,14 +118,14 @@ class Add(Layer):
                 .astype(dtype=getattr(self, "temp_pydtype", input_arrays[0].dtype))
             )
             for i in range(1, len(input_arrays)):
-                output += np.reshape(input_arrays[i], self.input_shapes[i][1:])
+                output = output + np.reshape(input_arrays[i], self.input_shapes[i][1:])
             """ checks that accumulator does not overflow in low precision integer """
             if np.issubdtype(input_arrays[0].dtype,np.integer):
                 out_i64 = (
                     np.copy(input_arrays[0])
                     .reshape(self.input_shapes[0][1:])
                     .astype(dtype=np.int64))
-                out_i64 += np.reshape(input_arrays[i], self.input_shapes[i][1:]).astype(dtype=np.int64)
+                out_i64 = out_i64 + np.reshape(input_arrays[i], self.input_shapes[i][1:]).astype(dtype=np.int64)
                 if (output != out_i64).all():
                     logging.warning("Add integer overflow !!!")
         else:
diff --git a/src/acetone_nnet/generator/layers/broadcast/divide/Divide.py b/src/acetone_nnet/generator/layers/broadcast/divide/Divide.py
index 29f1557..d67a028 100644
--- a/src/acetone_nnet/generator/layers/broadcast/divide/Divide.py
+++ b/src/acetone_nnet/generator/layers/broadcast/divide/Divide.py
@@ -131,7 +131,7 @@ class Divide(Layer):
         if len(self.previous_layer) > 1:
             output = np.copy(input_arrays[0]).reshape(self.input_shapes[0][1:])
             for i in range(1, len(input_arrays)):
-                output /= np.reshape(input_arrays[i], self.input_shapes[i][1:])
+                output = output / np.reshape(input_arrays[i], self.input_shapes[i][1:])
         else:
             output = np.reshape(input_arrays, self.input_shapes[0][1:])
         return self.activation_function.compute(output / constant)
diff --git a/src/acetone_nnet/generator/layers/broadcast/multiply/Multiply.py b/src/acetone_nnet/generator/layers/broadcast/multiply/Multiply.py
index 392e569..6f5444c 100644
--- a/src/acetone_nnet/generator/layers/broadcast/multiply/Multiply.py
+++ b/src/acetone_nnet/generator/layers/broadcast/multiply/Multiply.py
@@ -131,7 +131,7 @@ class Multiply(Layer):
         if len(self.previous_layer) > 1:
             output = np.copy(input_arrays[0]).reshape(self.input_shapes[0][1:])
             for i in range(1, len(input_arrays)):
-                output *= np.reshape(input_arrays[i], self.input_shapes[i][1:])
+                output = output * np.reshape(input_arrays[i], self.input_shapes[i][1:])
         else:
             output = np.reshape(input_arrays, self.input_shapes[0][1:])
         return self.activation_function.compute(output * constant)
diff --git a/src/acetone_nnet/generator/layers/broadcast/subtract/Subtract.py b/src/acetone_nnet/generator/layers/broadcast/subtract/Subtract.py
index db4bde4..e98e39c 100644
--- a/src/acetone_nnet/generator/layers/broadcast/subtract/Subtract.py
+++ b/src/acetone_nnet/generator/layers/broadcast/subtract/Subtract.py
@@ -131,7 +131,7 @@ class Subtract(Layer):
         if len(self.previous_layer) > 1:
             output = np.copy(input_arrays[0]).reshape(self.input_shapes[0][1:])
             for i in range(1, len(input_arrays)):
-                output -= np.reshape(input_arrays[i], self.input_shapes[i][1:])
+                output = output - np.reshape(input_arrays[i], self.input_shapes[i][1:])
         else:
             output = np.reshape(input_arrays, self.input_shapes[0][1:])
         return self.activation_function.compute(output - constant)
-- 
2.43.0


From ce923fdc01d3c098eb1ab64a1ced23dba234983b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:48 +0000
Subject: [PATCH 019/115] fix: record the operand of Tile and Reduce nodes as
 one name, not as its characters

---
 .../importers/ONNX_importer/create_layer.py          | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index 8084bf3..3c3c012 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -751,7 +751,7 @@ def create_tile(
     input_shape = get_shape(node.input[0], model)
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
-    dict_input[idx] = node.input[0]
+    dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     repeats = onnx.numpy_helper.to_array(look_for_initializer(node.input[1], model))
     repeats = [int(rep) for rep in repeats]
@@ -784,7 +784,7 @@ def create_reduce_sum(
     original_len_shape = len(get_shape(node.input[0],model,extend=False))
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
-    dict_input[idx] = node.input[0]
+    dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
     if model.opset_import[0].version < onnx_version_change_implementation:
@@ -838,7 +838,7 @@ def create_reduce_max(
     original_len_shape = len(get_shape(node.input[0],model,extend=False))
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
-    dict_input[idx] = node.input[0]
+    dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
     if model.opset_import[0].version < onnx_version_change_implementation:
@@ -892,7 +892,7 @@ def create_reduce_min(
     original_len_shape = len(get_shape(node.input[0],model,extend=False))
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
-    dict_input[idx] = node.input[0]
+    dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
     if model.opset_import[0].version < onnx_version_change_implementation:
@@ -946,7 +946,7 @@ def create_reduce_mean(
     original_len_shape = len(get_shape(node.input[0],model,extend=False))
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
-    dict_input[idx] = node.input[0]
+    dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
     if model.opset_import[0].version < onnx_version_change_implementation:
@@ -1000,7 +1000,7 @@ def create_reduce_prod(
     original_len_shape = len(get_shape(node.input[0],model,extend=False))
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
-    dict_input[idx] = node.input[0]
+    dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
     if model.opset_import[0].version < onnx_version_change_implementation:
-- 
2.43.0


From 7250c5d8bbd367c249d8fa96acc928d17b366e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:48 +0000
Subject: [PATCH 020/115] fix: keep the tensor a bypassed node reads available
 to its other consumers

---
 src/acetone_nnet/importers/ONNX_importer/create_layer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index 3c3c012..dfe2f92 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -1456,7 +1456,7 @@ def bypass(
     model: onnx.ModelProto,
 ) -> None:
     """Bypass the layer (output=input)."""
-    dict_output[node.output[0]] = dict_output.pop(node.input[0])
+    dict_output[node.output[0]] = dict_output[node.input[0]]
 
 
 def create_initializer(
-- 
2.43.0


From 1360479e13f50550c0611d997e0f93be3599b02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:08 +0000
Subject: [PATCH 021/115] fix: dilation widens the kernel when computing the
 same padding

---
 src/acetone_nnet/ir/layer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/ir/layer.py b/src/acetone_nnet/ir/layer.py
index 5856c45..aa345e0 100644
--- a/src/acetone_nnet/ir/layer.py
+++ b/src/acetone_nnet/ir/layer.py
@@ -127,8 +127,8 @@ class Layer(ABCHasTraits):
         if isinstance(padding, str):
             # Compute 'same' padding tensorflow
 
-            filter_height = kernel_h - (kernel_h - 1) * (dilation_rate - 1)
-            filter_width = kernel_w - (kernel_w - 1) * (dilation_rate - 1)
+            filter_height = kernel_h + (kernel_h - 1) * (dilation_rate - 1)
+            filter_width = kernel_w + (kernel_w - 1) * (dilation_rate - 1)
 
             # The total padding applied along the height and width is computed as:
             if padding in ("VALID", "valid"):
-- 
2.43.0


From f05f4f936af9dceba5ff5511e6c26c0ebf09a693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:08 +0000
Subject: [PATCH 022/115] fix: import Max, Min and Mean nodes with constant
 operands, and Mean with several operands

---
 .../importers/ONNX_importer/create_layer.py   | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index dfe2f92..88383ce 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -1285,18 +1285,15 @@ def create_max(
     model: onnx.ModelProto,
 ) -> Maximum:
     """Create a Max layer."""
-    input_shapes = []
-    for input_value in node.input:
-        input_shapes.append(get_shape(input_value, model))
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
-    dict_input[idx] = node.input
+    dict_input[idx], input_shapes = _broadcast_operands(model, node)
     dict_output[node.output[0]] = idx
     return Maximum(
         original_name=node.name,
         idx=idx,
         size=size,
-        input_shapes=np.array(input_shapes),
+        input_shapes=input_shapes,
         output_shape=output_shape,
         activation_function=Linear(),
     )
@@ -1311,18 +1308,15 @@ def create_min(
     model: onnx.ModelProto,
 ) -> Minimum:
     """Create a Min layer."""
-    input_shapes = []
-    for input_value in node.input:
-        input_shapes.append(get_shape(input_value, model))
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
-    dict_input[idx] = node.input
+    dict_input[idx], input_shapes = _broadcast_operands(model, node)
     dict_output[node.output[0]] = idx
     return Minimum(
         original_name=node.name,
         idx=idx,
         size=size,
-        input_shapes=np.array(input_shapes),
+        input_shapes=input_shapes,
         output_shape=output_shape,
         activation_function=Linear(),
     )
@@ -1337,12 +1331,9 @@ def create_avg(
     model: onnx.ModelProto,
 ) -> Average:
     """Create an Average layer."""
-    input_shapes = []
-    for input_value in node.input:
-        input_shapes.append(get_shape(input_value, model))
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
-    dict_input[idx] = node.input
+    dict_input[idx], input_shapes = _broadcast_operands(model, node)
     dict_output[node.output[0]] = idx
     return Average(
         original_name=node.name,
-- 
2.43.0


From 3d2ef7c2a92f259da0915703a9027866e115365b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:08 +0000
Subject: [PATCH 023/115] fix: import Clip nodes with scalar or omitted bounds

---
 src/acetone_nnet/importers/ONNX_importer/create_layer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index 88383ce..7088745 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -1368,10 +1368,10 @@ def instantiate_activation_layer(
             return LeakyReLu(attribute["alpha"])
         case "Clip":
             mini, maxi = float("-inf"), float("inf")
-            if node.input[1]:
-                mini = onnx.numpy_helper.to_array(look_for_initializer(node.input[1], model))[0]
-            if node.input[2]:
-                maxi = onnx.numpy_helper.to_array(look_for_initializer(node.input[2], model))[0]
+            if len(node.input) > 1 and node.input[1]:
+                mini = onnx.numpy_helper.to_array(look_for_initializer(node.input[1], model)).item()
+            if len(node.input) > 2 and node.input[2]:
+                maxi = onnx.numpy_helper.to_array(look_for_initializer(node.input[2], model)).item()
             return Clip(maxi,mini)
         case _:
             return None
-- 
2.43.0


From fddd19cb7d5d2cb8c9a773acffe0b1f4e2c1a1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:08 +0000
Subject: [PATCH 024/115] fix: import Reduce nodes of the opsets where axes is
 an attribute

---
 .../importers/ONNX_importer/create_layer.py            | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index 7088745..1be0dcc 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -791,7 +791,7 @@ def create_reduce_sum(
         if "keepdims" not in attributes:
             attributes["keepdims"] = 1
         attributes["noop_with_empty_axes"] = 0
-        attributes["axes"] = onnx.numpy_helper.to_array(attributes["axes"])
+        attributes["axes"] = list(attributes.get("axes", []))
     else:
         is_axes = 2
 
@@ -845,7 +845,7 @@ def create_reduce_max(
         if "keepdims" not in attributes:
             attributes["keepdims"] = 1
         attributes["noop_with_empty_axes"] = 0
-        attributes["axes"] = onnx.numpy_helper.to_array(attributes["axes"])
+        attributes["axes"] = list(attributes.get("axes", []))
     else:
         is_axes = 2
 
@@ -899,7 +899,7 @@ def create_reduce_min(
         if "keepdims" not in attributes:
             attributes["keepdims"] = 1
         attributes["noop_with_empty_axes"] = 0
-        attributes["axes"] = onnx.numpy_helper.to_array(attributes["axes"])
+        attributes["axes"] = list(attributes.get("axes", []))
     else:
         is_axes = 2
 
@@ -953,7 +953,7 @@ def create_reduce_mean(
         if "keepdims" not in attributes:
             attributes["keepdims"] = 1
         attributes["noop_with_empty_axes"] = 0
-        attributes["axes"] = onnx.numpy_helper.to_array(attributes["axes"])
+        attributes["axes"] = list(attributes.get("axes", []))
     else:
         is_axes = 2
 
@@ -1007,7 +1007,7 @@ def create_reduce_prod(
         if "keepdims" not in attributes:
             attributes["keepdims"] = 1
         attributes["noop_with_empty_axes"] = 0
-        attributes["axes"] = onnx.numpy_helper.to_array(attributes["axes"])
+        attributes["axes"] = list(attributes.get("axes", []))
     else:
         is_axes = 2
 
-- 
2.43.0


From 3970eed2f6f8bd9b650f17f9f2fff0a05fcf7e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:08 +0000
Subject: [PATCH 025/115] fix: import Gemm nodes without bias

---
 src/acetone_nnet/importers/ONNX_importer/create_layer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index 1be0dcc..2cb009e 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -576,9 +576,9 @@ def create_gemm(
     attributes = extract_attributes(node)
     b_tensor = look_for_initializer(node.input[1], model)
     if len(node.input) == 3:  # noqa: PLR2004
-        c_tensor = look_for_initializer(node.input[2], model)
+        bias = onnx.numpy_helper.to_array(look_for_initializer(node.input[2], model))
     else:
-        c_tensor = np.zeros((1, 1))
+        bias = np.zeros(output_shape[-1])
     if "transA" not in attributes:
         attributes["transA"] = 0
     if "transB" not in attributes:
@@ -596,7 +596,7 @@ def create_gemm(
         transA=attributes["transA"],
         transB=attributes["transB"],
         weights=onnx.numpy_helper.to_array(b_tensor),
-        bias=onnx.numpy_helper.to_array(c_tensor),
+        bias=bias,
         input_shape=input_shape,
         output_shape=output_shape,
         activation_function=Linear(),
-- 
2.43.0


From 7338293a58d24c41e665259ba45a57364929dfc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:53 +0000
Subject: [PATCH 026/115] fix: python reference of Max, Min and Mean shapes its
 operands before combining them

---
 .../generator/layers/broadcast/average/Average.py         | 8 +++++---
 .../generator/layers/broadcast/maximum/Maximum.py         | 8 +++++---
 .../generator/layers/broadcast/minimum/Minimum.py         | 8 +++++---
 3 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/broadcast/average/Average.py b/src/acetone_nnet/generator/layers/broadcast/average/Average.py
index 505594a..302b5ba 100644
--- a/src/acetone_nnet/generator/layers/broadcast/average/Average.py
+++ b/src/acetone_nnet/generator/layers/broadcast/average/Average.py
@@ -113,9 +113,11 @@ class Average(Layer):
 
     def forward_path_layer(self: Self, input_arrays: np.ndarray) -> np.ndarray:
         """Compute output of layer."""
-        output = np.copy(input_arrays[0])
-        for input_array in input_arrays[1:]:
-            output += input_array
+        if len(self.previous_layer) == 1:
+            input_arrays = [input_arrays]
+        output = np.reshape(input_arrays[0], self.input_shapes[0][1:])
+        for input_array, shape in zip(input_arrays[1:], self.input_shapes[1:]):
+            output = output + np.reshape(input_array, shape[1:])
         return self.activation_function.compute(output / (len(input_arrays)))
 
     def generate_inference_code_layer(self: Self) -> str:
diff --git a/src/acetone_nnet/generator/layers/broadcast/maximum/Maximum.py b/src/acetone_nnet/generator/layers/broadcast/maximum/Maximum.py
index d36fe5e..94ee3e8 100644
--- a/src/acetone_nnet/generator/layers/broadcast/maximum/Maximum.py
+++ b/src/acetone_nnet/generator/layers/broadcast/maximum/Maximum.py
@@ -124,9 +124,11 @@ class Maximum(Layer):
 
     def forward_path_layer(self: Self, input_arrays: np.ndarray) -> np.ndarray:
         """Compute output of layer."""
-        maxi = input_arrays[0]
-        for input_array in input_arrays[1:]:
-            maxi = np.maximum(maxi, input_array)
+        if len(self.previous_layer) == 1:
+            input_arrays = [input_arrays]
+        maxi = np.reshape(input_arrays[0], self.input_shapes[0][1:])
+        for input_array, shape in zip(input_arrays[1:], self.input_shapes[1:]):
+            maxi = np.maximum(maxi, np.reshape(input_array, shape[1:]))
         return self.activation_function.compute(maxi)
 
     def generate_inference_code_layer(self: Self) -> str:
diff --git a/src/acetone_nnet/generator/layers/broadcast/minimum/Minimum.py b/src/acetone_nnet/generator/layers/broadcast/minimum/Minimum.py
index 479c5e0..e537789 100644
--- a/src/acetone_nnet/generator/layers/broadcast/minimum/Minimum.py
+++ b/src/acetone_nnet/generator/layers/broadcast/minimum/Minimum.py
@@ -124,9 +124,11 @@ class Minimum(Layer):
 
     def forward_path_layer(self: Self, input_arrays: np.ndarray) -> np.ndarray:
         """Compute output of layer."""
-        mini = input_arrays[0]
-        for input_array in input_arrays[1:]:
-            mini = np.minimum(mini, input_array)
+        if len(self.previous_layer) == 1:
+            input_arrays = [input_arrays]
+        mini = np.reshape(input_arrays[0], self.input_shapes[0][1:])
+        for input_array, shape in zip(input_arrays[1:], self.input_shapes[1:]):
+            mini = np.minimum(mini, np.reshape(input_array, shape[1:]))
         return self.activation_function.compute(mini)
 
     def generate_inference_code_layer(self: Self) -> str:
-- 
2.43.0


From 5e93cd23298ed29a6847344e81f47a63dfc89ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:39 +0000
Subject: [PATCH 027/115] fix: apply the constant operand of Average, Maximum
 and Minimum

---
 src/acetone_nnet/generator/layers/broadcast/Broadcast.py  | 2 +-
 .../generator/layers/broadcast/average/Average.py         | 6 +++++-
 .../generator/layers/broadcast/maximum/Maximum.py         | 2 ++
 .../generator/layers/broadcast/minimum/Minimum.py         | 2 ++
 .../templates/layers/template_Broadcast.c.tpl             | 8 +++++++-
 5 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/broadcast/Broadcast.py b/src/acetone_nnet/generator/layers/broadcast/Broadcast.py
index fa48686..462ac22 100644
--- a/src/acetone_nnet/generator/layers/broadcast/Broadcast.py
+++ b/src/acetone_nnet/generator/layers/broadcast/Broadcast.py
@@ -159,7 +159,7 @@ class Broadcast(Layer):
             mustach_hash["min"] = True
         elif self.name == "Average":
             mustach_hash["Average"] = True
-            mustach_hash["prev_size"] = len(self.previous_layer)
+            mustach_hash["prev_size"] = len(self.previous_layer) + (self.constant is not None)
         else:
             mustach_hash["other"] = True
 
diff --git a/src/acetone_nnet/generator/layers/broadcast/average/Average.py b/src/acetone_nnet/generator/layers/broadcast/average/Average.py
index 302b5ba..d58baa1 100644
--- a/src/acetone_nnet/generator/layers/broadcast/average/Average.py
+++ b/src/acetone_nnet/generator/layers/broadcast/average/Average.py
@@ -118,7 +118,11 @@ class Average(Layer):
         output = np.reshape(input_arrays[0], self.input_shapes[0][1:])
         for input_array, shape in zip(input_arrays[1:], self.input_shapes[1:]):
             output = output + np.reshape(input_array, shape[1:])
-        return self.activation_function.compute(output / (len(input_arrays)))
+        nb_operands = len(input_arrays)
+        if self.constant is not None:
+            output = output + np.reshape(self.constant, self.input_shapes[-1][1:])
+            nb_operands += 1
+        return self.activation_function.compute(output / nb_operands)
 
     def generate_inference_code_layer(self: Self) -> str:
         """Generate inference code."""
diff --git a/src/acetone_nnet/generator/layers/broadcast/maximum/Maximum.py b/src/acetone_nnet/generator/layers/broadcast/maximum/Maximum.py
index 94ee3e8..18a3784 100644
--- a/src/acetone_nnet/generator/layers/broadcast/maximum/Maximum.py
+++ b/src/acetone_nnet/generator/layers/broadcast/maximum/Maximum.py
@@ -129,6 +129,8 @@ class Maximum(Layer):
         maxi = np.reshape(input_arrays[0], self.input_shapes[0][1:])
         for input_array, shape in zip(input_arrays[1:], self.input_shapes[1:]):
             maxi = np.maximum(maxi, np.reshape(input_array, shape[1:]))
+        if self.constant is not None:
+            maxi = np.maximum(maxi, np.reshape(self.constant, self.input_shapes[-1][1:]))
         return self.activation_function.compute(maxi)
 
     def generate_inference_code_layer(self: Self) -> str:
diff --git a/src/acetone_nnet/generator/layers/broadcast/minimum/Minimum.py b/src/acetone_nnet/generator/layers/broadcast/minimum/Minimum.py
index e537789..52b01ec 100644
--- a/src/acetone_nnet/generator/layers/broadcast/minimum/Minimum.py
+++ b/src/acetone_nnet/generator/layers/broadcast/minimum/Minimum.py
@@ -129,6 +129,8 @@ class Minimum(Layer):
         mini = np.reshape(input_arrays[0], self.input_shapes[0][1:])
         for input_array, shape in zip(input_arrays[1:], self.input_shapes[1:]):
             mini = np.minimum(mini, np.reshape(input_array, shape[1:]))
+        if self.constant is not None:
+            mini = np.minimum(mini, np.reshape(self.constant, self.input_shapes[-1][1:]))
         return self.activation_function.compute(mini)
 
     def generate_inference_code_layer(self: Self) -> str:
diff --git a/src/acetone_nnet/templates/layers/template_Broadcast.c.tpl b/src/acetone_nnet/templates/layers/template_Broadcast.c.tpl
index db12d7c..d97482b 100644
--- a/src/acetone_nnet/templates/layers/template_Broadcast.c.tpl
+++ b/src/acetone_nnet/templates/layers/template_Broadcast.c.tpl
@@ -10,15 +10,21 @@
                 {{#broadcast}}
                 ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] = fmax(ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)],ctx->{{output_str}}[(j%{{input_width}}) + {{input_width}}*((i%{{input_height}}) + {{input_height}}*(f % {{input_channels}}))]);
                 {{/broadcast}}
+                {{#constant}}
+                ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] = fmax(ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)],constant_{{name}}_{{idx}}[(j%{{cst_width}}) + {{cst_width}}*((i%{{cst_height}}) + {{cst_height}}*(f % {{cst_channels}}))]);
+                {{/constant}}
                 {{/max}}
                 {{#min}}
                 ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] = ctx->{{output_str0}}[(j%{{input_width0}}) + {{input_width0}}*((i%{{input_height0}}) + {{input_height0}}*(f % {{input_channels0}}))];
                 {{#broadcast}}
                 ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] = fmin(ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)],ctx->{{output_str}}[(j%{{input_width}}) + {{input_width}}*((i%{{input_height}}) + {{input_height}}*(f % {{input_channels}}))]);
                 {{/broadcast}}
+                {{#constant}}
+                ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] = fmin(ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)],constant_{{name}}_{{idx}}[(j%{{cst_width}}) + {{cst_width}}*((i%{{cst_height}}) + {{cst_height}}*(f % {{cst_channels}}))]);
+                {{/constant}}
                 {{/min}}
                 {{#Average}}
-                ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] = ({{#broadcast}}ctx->{{output_str}}[(j%{{input_width}}) + {{input_width}}*((i%{{input_height}}) + {{input_height}}*(f % {{input_channels}}))]{{operator}}{{/broadcast}})/{{prev_size}};
+                ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] = ({{#broadcast}}ctx->{{output_str}}[(j%{{input_width}}) + {{input_width}}*((i%{{input_height}}) + {{input_height}}*(f % {{input_channels}}))]{{operator}}{{/broadcast}}{{#constant}}{{operator}}constant_{{name}}_{{idx}}[(j%{{cst_width}}) + {{cst_width}}*((i%{{cst_height}}) + {{cst_height}}*(f % {{cst_channels}}))]{{/constant}})/{{prev_size}};
                 {{/Average}}
                 {{#other}}
                 ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] = {{#broadcast}}ctx->{{output_str}}[(j%{{input_width}}) + {{input_width}}*((i%{{input_height}}) + {{input_height}}*(f % {{input_channels}}))]{{operator}}{{/broadcast}}{{#constant}}{{operator}}constant_{{name}}_{{idx}}[(j%{{cst_width}}) + {{cst_width}}*((i%{{cst_height}}) + {{cst_height}}*(f % {{cst_channels}}))]{{/constant}};
-- 
2.43.0


From 57469ea4190e363758eef64c4a09d754c0e295e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:33 +0000
Subject: [PATCH 028/115] fix: opset < 13 Softmax normalises all the dimensions
 from axis on

---
 .../importers/ONNX_importer/create_layer.py         | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index 2cb009e..9fb3312 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -244,11 +244,16 @@ def create_softmax(
     dict_input[idx] = node.input
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
+    if model.opset_import[0].version < onnx_version_change_implementation:
+        # All the dimensions from axis on are normalised together
+        axis = attributes.get("axis", 1) % len(input_shape)
+        axes = [i for i in range(axis, len(input_shape)) if input_shape[i] != 1]
+        if len(axes) > 1:
+            msg = f"Error: Softmax over several dimensions not implemented ({node.name})"
+            raise ValueError(msg)
+        attributes["axis"] = axes[0] if axes else axis
     if "axis" not in attributes:
-        if model.opset_import[0].version < onnx_version_change_implementation:
-            attributes["axis"] = 1
-        else:
-            attributes["axis"] = len(output_shape) - 1
+        attributes["axis"] = len(output_shape) - 1
     elif attributes["axis"] < 0:
         attributes["axis"] = len(output_shape) + attributes["axis"]
     else:
-- 
2.43.0


From ca62f1ac9117510705460d343eac453ad2202323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:33 +0000
Subject: [PATCH 029/115] fix: default axis of Gather and GatherElements for
 tensors of less than 4 dimensions

---
 src/acetone_nnet/importers/ONNX_importer/create_layer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index 9fb3312..7db1d54 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -502,7 +502,7 @@ def create_gather(
     attributes = extract_attributes(node)
     indices = onnx.numpy_helper.to_array(look_for_initializer(node.input[1], model))
     if "axis" not in attributes:
-        attributes["axis"] = 0
+        attributes["axis"] = len(input_shape) - original_len_shape
     elif attributes["axis"] < 0:
         attributes["axis"] = len(input_shape) + attributes["axis"]
     else:
@@ -541,7 +541,7 @@ def create_gather_elements(
     attributes = extract_attributes(node)
     indices = onnx.numpy_helper.to_array(look_for_initializer(node.input[1], model))
     if "axis" not in attributes:
-        attributes["axis"] = 0
+        attributes["axis"] = len(input_shape) - original_len_shape
     elif attributes["axis"] < 0:
         attributes["axis"] = len(input_shape) + attributes["axis"]
     else:
-- 
2.43.0


From 7f4eb9740255175bd9a15aa05489c2eea8039675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:33 +0000
Subject: [PATCH 030/115] fix: import Gemm biases of shape (1,), (1, 1) and (1,
 N)

---
 src/acetone_nnet/importers/ONNX_importer/create_layer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index 7db1d54..1fe729b 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -582,6 +582,8 @@ def create_gemm(
     b_tensor = look_for_initializer(node.input[1], model)
     if len(node.input) == 3:  # noqa: PLR2004
         bias = onnx.numpy_helper.to_array(look_for_initializer(node.input[2], model))
+        # The layer adds one value per column
+        bias = np.broadcast_to(bias, (1, output_shape[-1])).flatten()
     else:
         bias = np.zeros(output_shape[-1])
     if "transA" not in attributes:
-- 
2.43.0


From fd8429d8a914f87a5b6ff7a446298ca2178b3f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:33 +0000
Subject: [PATCH 031/115] fix: Gemm with a scaled product and an unscaled bias

---
 src/acetone_nnet/generator/layers/gemm/Gemm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acetone_nnet/generator/layers/gemm/Gemm.py b/src/acetone_nnet/generator/layers/gemm/Gemm.py
index e865827..bfb11f3 100644
--- a/src/acetone_nnet/generator/layers/gemm/Gemm.py
+++ b/src/acetone_nnet/generator/layers/gemm/Gemm.py
@@ -100,7 +100,7 @@ class Gemm(Layer):
         ):
             msg += "Error: alpha type in Gemm (alpha must be int or float)"
             msg += "\n"
-        if self.alpha != [] and (
+        if self.beta != [] and (
             type(self.beta[0]) is not float and type(self.beta[0]) is int
         ):
             msg += "Error: beta type in Gemm (beta must be int or float)"
-- 
2.43.0


From 39a6cfaa378d3af860cd47cbbce0a5116ab0c852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:48 +0000
Subject: [PATCH 032/115] fix: refuse convolutions and poolings whose window
 the layers cannot represent

---
 .../importers/ONNX_importer/create_layer.py   | 22 +++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index 1fe729b..8dab231 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -174,6 +174,19 @@ def get_shape(
     return shape
 
 
+# The layers have a single stride and dilation rate, and square pooling windows
+def check_uniform(
+    node: onnx.NodeProto,
+    attributes: dict[str, Any],
+    names: tuple[str, ...],
+) -> None:
+    """Refuse an attribute whose value is not the same along all the dimensions."""
+    for name in names:
+        if len(set(attributes[name])) > 1:
+            msg = f"Error: {node.op_type} with {name} {list(attributes[name])} not implemented ({node.name})"
+            raise ValueError(msg)
+
+
 # Return the size of the layer when given the list output_shape
 def find_size(output_shape: list) -> int:
     """Compute the size of a tensor."""
@@ -300,6 +313,7 @@ def create_conv(
         attributes["auto_pad"] = attributes["auto_pad"].decode()
     if "strides" not in attributes:
         attributes["strides"] = [1, 1]
+    check_uniform(node, attributes, ("strides", "dilations"))
 
     initializers_length = 2
     if len(initializers) == initializers_length:
@@ -1076,6 +1090,10 @@ def create_max_pool(
         attributes["auto_pad"] = attributes["auto_pad"].decode()
     if "strides" not in attributes:
         attributes["strides"] = [1, 1]
+    check_uniform(node, attributes, ("strides", "dilations", "kernel_shape"))
+    if attributes["dilations"][0] != 1:
+        msg = f"Error: {node.op_type} with dilations not implemented ({node.name})"
+        raise ValueError(msg)
     return MaxPooling2D(
         original_name=node.name,
         idx=idx,
@@ -1115,6 +1133,10 @@ def create_average_pool(
         attributes["auto_pad"] = attributes["auto_pad"].decode()
     if "strides" not in attributes:
         attributes["strides"] = [1, 1]
+    check_uniform(node, attributes, ("strides", "dilations", "kernel_shape"))
+    if attributes["dilations"][0] != 1:
+        msg = f"Error: {node.op_type} with dilations not implemented ({node.name})"
+        raise ValueError(msg)
     return AveragePooling2D(
         original_name=node.name,
         idx=idx,
-- 
2.43.0


From db0f2b0ce17e6fd09bc981e0877d58ca98adde7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:48 +0000
Subject: [PATCH 033/115] fix: refuse average poolings that count their padding

---
 src/acetone_nnet/importers/ONNX_importer/create_layer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index 8dab231..483a26b 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -1137,6 +1137,11 @@ def create_average_pool(
     if attributes["dilations"][0] != 1:
         msg = f"Error: {node.op_type} with dilations not implemented ({node.name})"
         raise ValueError(msg)
+    if attributes.get("count_include_pad", 0) and attributes["auto_pad"] != "VALID" and (
+        isinstance(attributes["auto_pad"], str) or any(attributes["auto_pad"])
+    ):
+        msg = f"Error: AveragePool counting its padding not implemented ({node.name})"
+        raise ValueError(msg)
     return AveragePooling2D(
         original_name=node.name,
         idx=idx,
-- 
2.43.0


From fcc7276c5bfc13a3cef2326aa6ff46aa97e37ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:33 +0000
Subject: [PATCH 034/115] fix: Constant nodes keep their shape and can be
 operands

---
 .../importers/ONNX_importer/create_layer.py   |  3 +--
 .../importers/ONNX_importer/parser_ONNX.py    | 24 +++++++++----------
 2 files changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index 483a26b..e1e4032 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -1491,9 +1491,8 @@ def create_initializer(
 ) -> None:
     """Change a constant layer into an initializer."""
     const = model.graph.initializer.add()
+    const.CopyFrom(node.attribute[0].t)
     const.name = node.output[0]
-    const.data_type = node.attribute[0].t.data_type
-    const.raw_data = node.attribute[0].t.raw_data
 
 
 ###### Dict of all the functions ######
diff --git a/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py b/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
index aaecadb..61c14a6 100644
--- a/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
+++ b/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
@@ -90,18 +90,6 @@ def load_onnx(
         layers.append(create_input_layer(i, idx, dict_output))
         idx += 1
 
-    # Create constant for all initializers
-    init_dict = {i.name:i for i in model.graph.initializer}
-    '''for initializer in model.graph.initializer:
-        layers.append(
-            create_initializer_layer(
-                idx,
-                initializer,
-                dict_output,
-            ),
-        )
-        idx += 1'''
-
     # Going through all the nodes to create the layers and add them to the list
     for node in model.graph.node:
         if node.op_type in layer_type:
@@ -124,6 +112,18 @@ def load_onnx(
         else:
             raise TypeError("Error: layer " + node.op_type + " not supported\n")
 
+    # Create constant for all initializers
+    init_dict = {i.name:i for i in model.graph.initializer}
+    '''for initializer in model.graph.initializer:
+        layers.append(
+            create_initializer_layer(
+                idx,
+                initializer,
+                dict_output,
+            ),
+        )
+        idx += 1'''
+
     # Attach layers to their inputs and outputs
     for layer_idx, layer_inputs in dict_input.items():
         # The indices of a layer is the same as it's position in the list
-- 
2.43.0


From bb90ae4d8e63d75b115c97f1f7f48710eaf0270c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:19 +0000
Subject: [PATCH 035/115] fix: accept integer epsilon, alpha and beta in
 BatchNormalization and Gemm

---
 .../layers/batch_normalization/BatchNormalization.py      | 2 +-
 src/acetone_nnet/generator/layers/gemm/Gemm.py            | 8 ++------
 2 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/batch_normalization/BatchNormalization.py b/src/acetone_nnet/generator/layers/batch_normalization/BatchNormalization.py
index bc5b0ef..8b7aef3 100644
--- a/src/acetone_nnet/generator/layers/batch_normalization/BatchNormalization.py
+++ b/src/acetone_nnet/generator/layers/batch_normalization/BatchNormalization.py
@@ -82,7 +82,7 @@ class BatchNormalization(Layer):
         if type(self.output_width) is not int:
             msg += "Error: output width type in BatchNormalization (must be int)"
             msg += "\n"
-        if type(self.epsilon) is not float and type(self.epsilon) is int:
+        if not isinstance(self.epsilon, (int, float, np.number)):
             msg += "Error: epsilon type in BatchNormalization (epsilon must be int or float)"
             msg += "\n"
         if type(self.scale) is not np.ndarray:
diff --git a/src/acetone_nnet/generator/layers/gemm/Gemm.py b/src/acetone_nnet/generator/layers/gemm/Gemm.py
index bfb11f3..921ce66 100644
--- a/src/acetone_nnet/generator/layers/gemm/Gemm.py
+++ b/src/acetone_nnet/generator/layers/gemm/Gemm.py
@@ -95,14 +95,10 @@ class Gemm(Layer):
         if type(self.size) is not int:
             msg += "Error: size type in Gemm (size must be int)"
             msg += "\n"
-        if self.alpha != [] and (
-            type(self.alpha[0]) is not float and type(self.alpha[0]) is int
-        ):
+        if self.alpha != [] and not isinstance(self.alpha[0], (int, float, np.number)):
             msg += "Error: alpha type in Gemm (alpha must be int or float)"
             msg += "\n"
-        if self.beta != [] and (
-            type(self.beta[0]) is not float and type(self.beta[0]) is int
-        ):
+        if self.beta != [] and not isinstance(self.beta[0], (int, float, np.number)):
             msg += "Error: beta type in Gemm (beta must be int or float)"
             msg += "\n"
         if any(
-- 
2.43.0


From 807601c5410be62f79583b48dd414738ec2d27e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:02 +0000
Subject: [PATCH 036/115] fix: reflect padding of a tensor with a dimension of
 size 1

---
 .../layers/padding/reflect_pad/ReflectPadDefault.py         | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/padding/reflect_pad/ReflectPadDefault.py b/src/acetone_nnet/generator/layers/padding/reflect_pad/ReflectPadDefault.py
index 22efb2f..051ba77 100644
--- a/src/acetone_nnet/generator/layers/padding/reflect_pad/ReflectPadDefault.py
+++ b/src/acetone_nnet/generator/layers/padding/reflect_pad/ReflectPadDefault.py
@@ -44,9 +44,9 @@ class ReflectPadDefault(ReflectPad):
         mustach_hash["pads_front"] = self.pads[1]
         mustach_hash["pads_top"] = self.pads[2]
         mustach_hash["pads_left"] = self.pads[3]
-        mustach_hash["channels_max"] = self.input_shape[1] - 1
-        mustach_hash["height_max"] = self.input_shape[2] - 1
-        mustach_hash["width_max"] = self.input_shape[3] - 1
+        mustach_hash["channels_max"] = max(self.input_shape[1] - 1, 1)
+        mustach_hash["height_max"] = max(self.input_shape[2] - 1, 1)
+        mustach_hash["width_max"] = max(self.input_shape[3] - 1, 1)
 
         with open(self.template_path / "layers" / "Pad" / "template_Reflect_Pad.c.tpl") as template_file:
             template = template_file.read()
-- 
2.43.0


From 7f1e72047c526100ab869b14fdea066b33b5fc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:17 +0000
Subject: [PATCH 037/115] fix: a reduction over the batch axis alone reduces
 nothing

---
 src/acetone_nnet/generator/layers/reduce/Reduce.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acetone_nnet/generator/layers/reduce/Reduce.py b/src/acetone_nnet/generator/layers/reduce/Reduce.py
index 32ebdf3..2fe4ad0 100644
--- a/src/acetone_nnet/generator/layers/reduce/Reduce.py
+++ b/src/acetone_nnet/generator/layers/reduce/Reduce.py
@@ -169,7 +169,7 @@ class Reduce(Layer):
             mustach_hash["func"] = "*"
 
         if len(which_dim_to_reduc) == 0:
-            if self.noop_with_empty_axes:
+            if self.axes or self.noop_with_empty_axes:
                 mustach_hash["none"] = True
                 mustach_hash["activation_function"] = self.activation_function.write_activation_str(
                     f"ctx->{output_str}[k]")
-- 
2.43.0


From dbbfa299dabad8b8f3f751280c3c466cdf7dbfe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:17 +0000
Subject: [PATCH 038/115] fix: Clip without a bound generates valid C

---
 .../generator/activation_functions.py         | 23 ++++++-------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/src/acetone_nnet/generator/activation_functions.py b/src/acetone_nnet/generator/activation_functions.py
index afa6338..a0420cd 100644
--- a/src/acetone_nnet/generator/activation_functions.py
+++ b/src/acetone_nnet/generator/activation_functions.py
@@ -267,19 +267,10 @@ class Clip(ActivationFunctions):
         """Generate the string to print."""
         # output = condition ? value_if_true : value_if_false
         # output = input > max ? max : (input < min ? min : input)
-        return (
-            local_var
-            + " > "
-            + str(self.max)
-            + " ? "
-            + str(self.max)
-            + " : ("
-            + local_var
-            + " < "
-            + str(self.min)
-            + " ? "
-            + str(self.min)
-            + " : "
-            + local_var
-            + ")"
-        )
+        # A missing bound (infinite, which is not a C literal) is not compared to
+        output = local_var
+        if self.min != -np.inf:
+            output = f"({local_var} < {self.min} ? {self.min} : {local_var})"
+        if self.max != np.inf:
+            output = f"{local_var} > {self.max} ? {self.max} : {output}"
+        return output
-- 
2.43.0


From a6a3234481f55163a1093a456493b3c6a5041bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:17 +0000
Subject: [PATCH 039/115] fix: debug mode prints the outputs held by the
 context

---
 src/acetone_nnet/templates/template_source_file.c.tpl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acetone_nnet/templates/template_source_file.c.tpl b/src/acetone_nnet/templates/template_source_file.c.tpl
index 3d9f9a1..963a695 100644
--- a/src/acetone_nnet/templates/template_source_file.c.tpl
+++ b/src/acetone_nnet/templates/template_source_file.c.tpl
@@ -100,7 +100,7 @@ int inference(inference_t *ctx, {{data_type}} prediction[{{output_size}}], {{dat
     fprintf(fp, "{{name}} {{idx}} {{to_transpose}} {{channels}} {{height}} {{width}}\n");
     for (k = 0; k < {{size}}; ++k)
     {
-        fprintf(fp,"%.9g ", output_{{path}}[k]);
+        fprintf(fp,"%.9g ", ctx->output_{{path}}[k]);
         if (k == {{size}} - 1)
         {
             fprintf(fp, "\n");
-- 
2.43.0


From 140c63af08625824e092c60b178f677de2ce6bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:17 +0000
Subject: [PATCH 040/115] fix: define the inputs read at run time in main.c
 only

---
 src/acetone_nnet/templates/template_main_file.c.tpl           | 4 ++++
 src/acetone_nnet/templates/template_test_dataset_header.c.tpl | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/templates/template_main_file.c.tpl b/src/acetone_nnet/templates/template_main_file.c.tpl
index 2fe02ca..d3653d4 100644
--- a/src/acetone_nnet/templates/template_main_file.c.tpl
+++ b/src/acetone_nnet/templates/template_main_file.c.tpl
@@ -14,6 +14,10 @@
 {{/min}}
 
 struct timeval GetTimeStamp();
+{{#read_input}}
+
+{{data_type}} nn_test_inputs[nb_samples][nn_input_size];
+{{/read_input}}
 
 int main(int argc, char** argv)
 {
diff --git a/src/acetone_nnet/templates/template_test_dataset_header.c.tpl b/src/acetone_nnet/templates/template_test_dataset_header.c.tpl
index ac70931..6e5d090 100644
--- a/src/acetone_nnet/templates/template_test_dataset_header.c.tpl
+++ b/src/acetone_nnet/templates/template_test_dataset_header.c.tpl
@@ -5,6 +5,6 @@
 #define nn_input_size {{nb_inputs}}
 #define nn_output_size {{nb_outputs}}
 
-{{^read_input}}extern{{/read_input}} {{data_type}} nn_test_inputs[nb_samples][nn_input_size];
+extern {{data_type}} nn_test_inputs[nb_samples][nn_input_size];
 
 #endif
\ No newline at end of file
-- 
2.43.0


From ff696c8864524c9202d222b63ea20176626476e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:17 +0000
Subject: [PATCH 041/115] fix: declare and define the weights of blocked
 convolutions in their own layout

---
 src/acetone_nnet/generator/neural_network.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index eacb50f..aadea3c 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -1026,6 +1026,8 @@ class CodeGenerator(ABC):
 
             if hasattr(layer, "weights"):
                 layer_hash["nb_weights"] = layer.nb_weights
+                if (w := getattr(layer, "layout", None)) is not None:
+                    layer_hash["nb_weights"] = w.size
                 self.nb_weights_max = max(layer.nb_weights, self.nb_weights_max)
                 to_print = True
 
@@ -1175,7 +1177,11 @@ class CodeGenerator(ABC):
 
             if (w := getattr(layer, "weights", None)) is not None:
                 layer_hash["nb_weights"] = layer.nb_weights
-                layer_hash["weights"] = self.flatten_array_order_c(layer.weights)
+                if (layout := getattr(layer, "layout", None)) is not None:
+                    # the layer reads its weights in another order
+                    layer_hash["nb_weights"] = layout.size
+                    w = layout
+                layer_hash["weights"] = self.flatten_array_order_c(w)
 
             if isinstance(layer, ConstantLayer):
                 layer_hash["nb_weights"] = layer.constant.size
-- 
2.43.0


From f758bb8b3b9c8ff41158f7a90514fb154a1da3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:00 +0000
Subject: [PATCH 042/115] fix: use the Winograd template only when both output
 extents are even

The template computes tiles of 2x2 outputs; with an even width and an odd height
the last output row was left uncomputed.
---
 .../generator/layers/convolution/Conv2Ddirect_block.py        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/convolution/Conv2Ddirect_block.py b/src/acetone_nnet/generator/layers/convolution/Conv2Ddirect_block.py
index f0473fa..54cdd8f 100644
--- a/src/acetone_nnet/generator/layers/convolution/Conv2Ddirect_block.py
+++ b/src/acetone_nnet/generator/layers/convolution/Conv2Ddirect_block.py
@@ -35,7 +35,7 @@ class Conv2Ddirect_block(Conv2D):
         '''
         converts weight shape to layout dedicated to optimized template
         '''
-        even_image = self.input_width%2==0
+        even_image = self.output_height%2==0 and self.output_width%2==0
         K, C, KH, KW = self.weights.shape
         assert C==self.input_channels//self.group
         assert K==self.nb_filters
@@ -110,7 +110,7 @@ class Conv2Ddirect_block(Conv2D):
         elif self.kernel_h==1 and self.kernel_w==1 and self.padding==1:
             tpl = "template_Conv1x1_block.c.tpl"
         #case 3x3, stride 1, even size, winograd
-        elif self.kernel_h==3 and self.kernel_w==3 and self.strides==1 and self.input_width%2==0:
+        elif self.kernel_h==3 and self.kernel_w==3 and self.strides==1 and self.output_height%2==0 and self.output_width%2==0:
             tpl = "template_Conv3x3_winograd.c.tpl"
         else:
             tpl = "template_Conv_direct_block.c.tpl"
-- 
2.43.0


From 722358ee033293320b22d208e04bc76499e80892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:06 +0000
Subject: [PATCH 043/115] fix: load the dataset of the reference run with the
 arguments the loader takes

compute_inference passed a data_type argument that _initialise_dataset does
not have, so the reference run of a network with an external input raised
TypeError.
---
 src/acetone_nnet/generator/neural_network.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index aadea3c..646d646 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -479,7 +479,6 @@ class CodeGenerator(ABC):
             dataset = self._initialise_dataset(
                 dataset_or_path=dataset_or_path,
                 nb_tests=self.nb_tests,
-                data_type=self.data_type_py,
             )
         else:
             dataset = self.test_dataset
-- 
2.43.0


From 1c3cc507a10902e82641e71a5f7e4a19f653ab54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:06 +0000
Subject: [PATCH 044/115] fix: copy and save the weights of blocked
 convolutions in full

The training hook sized the weights by their number before the layout of the
blocked convolution pads them.
---
 src/acetone_nnet/generator/neural_network.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index 646d646..4a4c0af 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -451,7 +451,8 @@ class CodeGenerator(ABC):
         for layer in self.layers:
             if (w := getattr(layer, "weights", None)) is not None and layer.nb_weights > 0:
                 memcpy_names.append(f"weights_{layer.name}_{layer.idx:02d}")
-                sizes.append(layer.nb_weights)
+                layout = getattr(layer, "layout", None)
+                sizes.append(layer.nb_weights if layout is None else layout.size)
             if isinstance(layer, ConstantLayer) and layer.constant.size > 0:
                 memcpy_names.append(f"weights_{layer.name}_{layer.idx:02d}")
                 sizes.append(layer.constant.size)
-- 
2.43.0


From 3f5874ec1d2fa4f5c058435fcdc904499557402e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:07 +0000
Subject: [PATCH 045/115] fix: give the batch loop the data type of the network

batch_loop took pointers to float, which inference refuses in a network of
another type.
---
 src/acetone_nnet/templates/template_train_hook_file.c.tpl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acetone_nnet/templates/template_train_hook_file.c.tpl b/src/acetone_nnet/templates/template_train_hook_file.c.tpl
index 7bbd6a5..22c8202 100644
--- a/src/acetone_nnet/templates/template_train_hook_file.c.tpl
+++ b/src/acetone_nnet/templates/template_train_hook_file.c.tpl
@@ -4,7 +4,7 @@
 #include "inference.h"
 #include "test_dataset.h"
 
-void batch_loop(float * restrict predictions, float * restrict nn_input, int batch_size)
+void batch_loop({{data_type}} * restrict predictions, {{data_type}} * restrict nn_input, int batch_size)
 {
     int i,j;
     for (j = 0; j < batch_size; j+=MAX_BATCH_SIZE){
-- 
2.43.0


From 05d7f311bfe8d472eef5ab093478c9f86530280e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:07 +0000
Subject: [PATCH 046/115] fix: read the inputs of a network of doubles as
 doubles

---
 src/acetone_nnet/generator/neural_network.py        | 1 +
 src/acetone_nnet/templates/template_main_file.c.tpl | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index 4a4c0af..c26b064 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -694,6 +694,7 @@ class CodeGenerator(ABC):
                         "data_type": self.data_type,
                         "read_input": self.read_ext_input,
                         "verbose": self.verbose,
+                        "scan_format": "%lf" if self.data_type == "double" else "%f",
                         "format": (
                             "%d"
                             if np.issubdtype(self.data_type_py, np.integer)
diff --git a/src/acetone_nnet/templates/template_main_file.c.tpl b/src/acetone_nnet/templates/template_main_file.c.tpl
index d3653d4..cf1f275 100644
--- a/src/acetone_nnet/templates/template_main_file.c.tpl
+++ b/src/acetone_nnet/templates/template_main_file.c.tpl
@@ -33,7 +33,7 @@ int main(int argc, char** argv)
     {
         for (j = 0; j < nn_input_size; ++j)
         {
-            fscanf(input_file, "%f", &nn_test_inputs[i][j]);
+            fscanf(input_file, "{{scan_format}}", &nn_test_inputs[i][j]);
         }
     }
     fclose(input_file);
-- 
2.43.0


From b81f7877483359df55be5b8e6f67a97ceaa47084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:07 +0000
Subject: [PATCH 047/115] fix: divide the time of a verbose run by the number
 of samples it evaluated

---
 src/acetone_nnet/templates/template_main_file.c.tpl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acetone_nnet/templates/template_main_file.c.tpl b/src/acetone_nnet/templates/template_main_file.c.tpl
index cf1f275..12db86c 100644
--- a/src/acetone_nnet/templates/template_main_file.c.tpl
+++ b/src/acetone_nnet/templates/template_main_file.c.tpl
@@ -57,7 +57,7 @@ int main(int argc, char** argv)
 
     {{#verbose}}
     printf("   Average time over %d tests: %e s \n", nb_samples,
-        (float)(t1-t0)/(float)CLOCKS_PER_SEC/(float)100);
+        (float)(t1-t0)/(float)CLOCKS_PER_SEC/(float)nb_samples);
 
     printf("   ACETONE framework's inference output: \n");
     {{/verbose}}
-- 
2.43.0


From 3aea075018f70100f0c8e931a992e0ecbac65b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:36 +0000
Subject: [PATCH 048/115] fix: never write over existing binary parameters and
 test data

The .dat files of a binary data set were not among the files that
generate_c_files looks for before it writes.
---
 src/acetone_nnet/generator/neural_network.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index c26b064..381f444 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -293,6 +293,8 @@ class CodeGenerator(ABC):
                 lambda s, path: s.generate_train_hook_file(path),
             ]
             file_names.extend(["inference.c", "inference.h","global_vars.c","parameters.c","train_hook.c"])
+            if self.bin_dataset:
+                file_names.append("parameters.dat")
 
         if "Makefile" not in custom_generation_functions:
             generation_functions["Makefile"] = [
@@ -302,6 +304,8 @@ class CodeGenerator(ABC):
 
         if not self.read_ext_input and "TestValues" not in custom_generation_functions:
             file_names.append("test_dataset.c")
+            if self.bin_dataset:
+                file_names.append("test_dataset.dat")
             generation_functions["TestValues"] = [
                 lambda s, path: s.generate_test_dataset_value_file(path),
             ]
-- 
2.43.0


From ae475eb17b46a7c2dae26c4a40c96fbf306b8936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:36 +0000
Subject: [PATCH 049/115] fix: accept custom generation functions in their
 documented form

Each key maps to a list of (file name, function) tuples, and an empty list
disables the key; such lists were unpacked as one tuple and raised an error.
---
 src/acetone_nnet/generator/neural_network.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index 381f444..1eb68ac 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -318,11 +318,10 @@ class CodeGenerator(ABC):
                 lambda s,path: s.generate_target_header_file(path),
             ]
 
-        for k in custom_generation_functions:
-            name, generation_function = custom_generation_functions.get(k, ("", []))
-            if generation_function:
-                file_names.append(name)
-                generation_functions[k] = generation_function
+        for k, custom_functions in custom_generation_functions.items():
+            if custom_functions:
+                file_names.extend(name for name, _ in custom_functions)
+                generation_functions[k] = [function for _, function in custom_functions]
 
         return file_names, generation_functions
 
-- 
2.43.0


From 37beac81d3c4fb8c01f64d4d8d8d83d794be69ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:58 +0000
Subject: [PATCH 050/115] fix: compare exactly the requested number of
 inferences

A line after the last inference to compare was compared too, and files with
missing lines, or lines with missing values, were reported equal (or raised an
IndexError, depending on which file was shorter).
---
 src/acetone_nnet/cli/compare.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/acetone_nnet/cli/compare.py b/src/acetone_nnet/cli/compare.py
index 3dc3abb..dda1a7c 100644
--- a/src/acetone_nnet/cli/compare.py
+++ b/src/acetone_nnet/cli/compare.py
@@ -69,6 +69,9 @@ def compare_lines(
     length = len(values_f1)
     line_comparison = True
 
+    if length != len(values_f2):
+        return False, float("inf"), float("inf")
+
     for j in range(length):
         float_comparison, diff, rel_diff = compare_floats(values_f1[j], values_f2[j])
         line_comparison = float_comparison & line_comparison
@@ -95,12 +98,9 @@ def compare_files(
     max_rel_diff_file = 0.0
     line_comparison = True
 
-    for line_f1, line_f2, line_counter in zip(
-        f1,
-        f2,
-        range(nb_tests + 1),
-        strict=False,
-    ):
+    nb_lines = 0
+    # nb_tests comes first, so that no line is read once it is exhausted
+    for _, line_f1, line_f2 in zip(range(nb_tests), f1, f2, strict=False):
         float_comparison, max_diff_line, max_rel_diff_line = (
             compare_lines(line_f1, line_f2, precision)
         )
@@ -109,12 +109,14 @@ def compare_files(
         max_diff_file = max(max_diff_line, max_diff_file)
         max_rel_diff_file = max(max_rel_diff_line, max_rel_diff_file)
 
-        if line_counter == int(nb_tests):
-            break
+        nb_lines += 1
 
     f1.close()
     f2.close()
 
+    if nb_lines < nb_tests:
+        return False, float("inf"), float("inf")
+
     if line_comparison:
         return True, max_diff_file, max_rel_diff_file
 
-- 
2.43.0


From 2591075c5c1b915540a0093e1b35dadf99ede09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:58 +0000
Subject: [PATCH 051/115] fix: report nan as the largest difference when an
 output is not a number

max() drops a nan that comes after a number, so an output that is nan could be
compared without any trace in the errors printed.
---
 src/acetone_nnet/cli/compare.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/acetone_nnet/cli/compare.py b/src/acetone_nnet/cli/compare.py
index dda1a7c..52ee0e3 100644
--- a/src/acetone_nnet/cli/compare.py
+++ b/src/acetone_nnet/cli/compare.py
@@ -20,6 +20,7 @@
 """
 
 import argparse
+import math
 import sys
 from pathlib import Path
 
@@ -46,6 +47,11 @@ def compare_floats(
     return False, diff, rel_diff
 
 
+def largest(a: float, b: float) -> float:
+    """Return the largest of two differences, or nan if one of them is."""
+    return a if math.isnan(a) or a > b else b
+
+
 def preprocess_line(line: str, precision: str) -> list:
     """Cast a list of str to a list of float."""
     values: list = [float.fromhex(x) for x in line.split(" ") if x.strip()]
@@ -75,8 +81,8 @@ def compare_lines(
     for j in range(length):
         float_comparison, diff, rel_diff = compare_floats(values_f1[j], values_f2[j])
         line_comparison = float_comparison & line_comparison
-        max_diff = max(diff, max_diff)
-        max_rel_diff = max(rel_diff, max_rel_diff)
+        max_diff = largest(diff, max_diff)
+        max_rel_diff = largest(rel_diff, max_rel_diff)
 
     if line_comparison:
         return True, max_diff, max_rel_diff
@@ -106,8 +112,8 @@ def compare_files(
         )
         line_comparison = float_comparison & line_comparison
 
-        max_diff_file = max(max_diff_line, max_diff_file)
-        max_rel_diff_file = max(max_rel_diff_line, max_rel_diff_file)
+        max_diff_file = largest(max_diff_line, max_diff_file)
+        max_rel_diff_file = largest(max_rel_diff_line, max_rel_diff_file)
 
         nb_lines += 1
 
-- 
2.43.0


From 0cdb7ad45556b76d1dd04a7d282d6d4066a528dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:58 +0000
Subject: [PATCH 052/115] fix: read the boolean options of acetone_generate as
 booleans

bool('False') is True, so --verbose False, --bin_dataset False and
--optimization False enabled what they were meant to disable.
---
 src/acetone_nnet/cli/generate.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/cli/generate.py b/src/acetone_nnet/cli/generate.py
index 6782ee0..27ac287 100644
--- a/src/acetone_nnet/cli/generate.py
+++ b/src/acetone_nnet/cli/generate.py
@@ -66,6 +66,16 @@ def cli_acetone(
     net.compute_inference(output_dir)
 
 
+def boolean(value: str) -> bool:
+    """Read a boolean given on the command line."""
+    if value.lower() in ("true", "yes", "1"):
+        return True
+    if value.lower() in ("false", "no", "0"):
+        return False
+    msg = f"expected True or False, got {value}"
+    raise argparse.ArgumentTypeError(msg)
+
+
 def acetone_generate() -> None:
     """Generate C code from a neural network model description file."""
     parser = argparse.ArgumentParser(
@@ -116,6 +126,9 @@ def acetone_generate() -> None:
         "--optimization",
         help="Activate model optimization on the internal representation.",
         default=False,
+        type=boolean,
+        nargs="?",
+        const=True,
     )
 
     parser.add_argument(
@@ -134,14 +147,18 @@ def acetone_generate() -> None:
     parser.add_argument(
         "--bin_dataset",
         default=False,
-        type=bool,
+        type=boolean,
+        nargs="?",
+        const=True,
         help="generate dataset as a binary file (not source compiled file)",
     )
 
     parser.add_argument(
         "--verbose",
         default=False,
-        type=bool,
+        type=boolean,
+        nargs="?",
+        const=True,
         help="verbose logging at INFO level else WARNING level",
     )
 
-- 
2.43.0


From 9543fb49fdbed9b6018f55b53b19c152edc44088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:30 +0000
Subject: [PATCH 053/115] fix: align_corners resizing divides as real numbers,
 and by no zero extent

---
 src/acetone_nnet/generator/layers/resize/Resize.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/resize/Resize.py b/src/acetone_nnet/generator/layers/resize/Resize.py
index b9cc327..d1de856 100644
--- a/src/acetone_nnet/generator/layers/resize/Resize.py
+++ b/src/acetone_nnet/generator/layers/resize/Resize.py
@@ -319,9 +319,10 @@ class Resize(Layer):
             length_original = self.input_width
             length_resized = self.output_width
 
-        s = (f"{coord_original} = {coord_resized}*({length_original} - 1)"
-             f"/({length_resized} - 1);")
-        return s
+        if length_resized > 1:
+            return (f"{coord_original} = (float){coord_resized}*({length_original} - 1)"
+                    f"/({length_resized} - 1);")
+        return f"{coord_original} = 0;"
 
     def align_corners_implem(
             self: Self,
@@ -336,7 +337,9 @@ class Resize(Layer):
             length_original = self.input_width
             length_resized = self.output_width
 
-        return coordinate * (length_original - 1) / (length_resized - 1)
+        if length_resized > 1:
+            return coordinate * (length_original - 1) / (length_resized - 1)
+        return 0
 
     def asymmetric(
             self: Self,
-- 
2.43.0


From 5f4e712f0cb7786064c71744603227ee2f4fda35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:30 +0000
Subject: [PATCH 054/115] fix: half_pixel_symmetric resizing adjusts for the
 truncated extent of the output

---
 .../generator/layers/resize/Resize.py         | 21 +++++++++----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/resize/Resize.py b/src/acetone_nnet/generator/layers/resize/Resize.py
index d1de856..0c675ed 100644
--- a/src/acetone_nnet/generator/layers/resize/Resize.py
+++ b/src/acetone_nnet/generator/layers/resize/Resize.py
@@ -243,18 +243,17 @@ class Resize(Layer):
     ) -> str:
         """Generate the half-pixel-symmetric coordinate transformation code."""
         if coord_dim == 2:
-            target_length = self.output_height * self.scale[2]
+            target_length = self.output_height
             input_length = self.input_height
         else:
-            target_length = self.output_width * self.scale[3]
+            target_length = self.output_width
             input_length = self.input_width
 
-        s = f"float adjustment = {int(target_length)}/{target_length};\n"
-        s += f"                float center = {input_length}/2;\n"
-        s += "                float offset = center*(1 - adjustment);\n"
-        s += (f"                {coord_original} = offset + ({coord_resized} + 0.5)"
-              f"/{self.scale[coord_dim]} - 0.5;")
-        return s
+        adjustment = target_length / (input_length * self.scale[coord_dim])
+        center = input_length / 2
+        offset = center * (1 - adjustment)
+        return (f"{coord_original} = {offset} + ({coord_resized} + 0.5)"
+                f"/{self.scale[coord_dim]} - 0.5;")
 
     def half_pixel_symmetric_implem(
             self: Self,
@@ -263,13 +262,13 @@ class Resize(Layer):
     ) -> float:
         """Compute the half-pixel-symmetric coordinate transformation code."""
         if coordinate_dimension == 2:
-            target_length = self.output_height * self.scale[2]
+            target_length = self.output_height
             input_length = self.input_height
         else:
-            target_length = self.output_width * self.scale[3]
+            target_length = self.output_width
             input_length = self.input_width
 
-        adjustment = int(target_length) / target_length
+        adjustment = target_length / (input_length * self.scale[coordinate_dimension])
         center = input_length / 2
         offset = center * (1 - adjustment)
         return offset + (coordinate + 0.5) / self.scale[coordinate_dimension] - 0.5
-- 
2.43.0


From 8d68b0757387856ee363641e82b4747f347ea709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:30 +0000
Subject: [PATCH 055/115] fix: nearest resizing reads inside its input

---
 .../generator/layers/resize/resize_nearest/ResizeNearest.py    | 3 +++
 .../layers/resize/resize_nearest/ResizeNearestDefault.py       | 2 ++
 .../templates/layers/Resize/template_ResizeNearest.c.tpl       | 2 ++
 3 files changed, 7 insertions(+)

diff --git a/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearest.py b/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearest.py
index 59f3a46..9dd8394 100644
--- a/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearest.py
+++ b/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearest.py
@@ -88,5 +88,8 @@ class ResizeNearest(Resize):
                     y = self.coordinate_transformation_mode_implem_mapping[self.coordinate_transformation_mode](j, 3)
                     y0 = self.nearest_mode_implem_mapping[self.nearest_mode](y)
 
+                    x0 = max(0, min(self.input_height - 1, x0))
+                    y0 = max(0, min(self.input_width - 1, y0))
+
                     output[f, i, j] = input_array[f, x0, y0]
         return self.activation_function.compute(output)
diff --git a/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearestDefault.py b/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearestDefault.py
index 66df2fd..0718c9b 100644
--- a/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearestDefault.py
+++ b/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearestDefault.py
@@ -71,6 +71,8 @@ class ResizeNearestDefault(ResizeNearest):
         mustach_hash["activation_function"] = self.activation_function.write_activation_str(
             f"ctx->{output_str}[y0 + {self.input_width}*(x0 + {self.input_height}*f)]")
 
+        mustach_hash["len_height"] = self.input_height - 1
+        mustach_hash["len_width"] = self.input_width - 1
         mustach_hash["output_channels"] = self.output_channels
         mustach_hash["output_height"] = self.output_height
         mustach_hash["output_width"] = self.output_width
diff --git a/src/acetone_nnet/templates/layers/Resize/template_ResizeNearest.c.tpl b/src/acetone_nnet/templates/layers/Resize/template_ResizeNearest.c.tpl
index 243cd4c..d9f36ed 100644
--- a/src/acetone_nnet/templates/layers/Resize/template_ResizeNearest.c.tpl
+++ b/src/acetone_nnet/templates/layers/Resize/template_ResizeNearest.c.tpl
@@ -9,6 +9,8 @@
                 {{{coordinate_transformation_mode_y}}}
                 {{nearest_mode_x}}
                 {{nearest_mode_y}}
+                x0 = x0<0 ? 0 : (x0>{{len_height}} ? {{len_height}} : x0);
+                y0 = y0<0 ? 0 : (y0>{{len_width}} ? {{len_width}} : y0);
                 ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] = {{{activation_function}}};
             }
         }
-- 
2.43.0


From 59fd95331078fd1acf98a5d6651d46cafa2e1f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:30 +0000
Subject: [PATCH 056/115] fix: linear resizing of one dimension interpolates
 between neighbours

---
 .../layers/Resize/template_ResizeLinear1D.c.tpl     | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/acetone_nnet/templates/layers/Resize/template_ResizeLinear1D.c.tpl b/src/acetone_nnet/templates/layers/Resize/template_ResizeLinear1D.c.tpl
index 6fd876a..93e0d3e 100644
--- a/src/acetone_nnet/templates/layers/Resize/template_ResizeLinear1D.c.tpl
+++ b/src/acetone_nnet/templates/layers/Resize/template_ResizeLinear1D.c.tpl
@@ -1,18 +1,19 @@
     // {{name}}_{{idx}}{{comment}} {{#original_name}}(layer {{original_name}} in  input model){{/original_name}}
-    x1 = {{len_dimension}};
-    x0 = 0;
 
     for (f = 0; f < {{output_channels}}; ++f)
     {
-        f11 = ctx->{{output_str}}[x0 + {{dimension}}*f];
-        f22 = ctx->{{output_str}}[x1 + {{dimension}}*f];
-
         for (i = 0; i < {{output_height}}; ++i)
         {
             for(j = 0; j < {{output_width}}; ++j)
             {
                 {{{coordinate_transformation_mode}}}
-                x = x<x0 ? x0 : (x>x1 ? x1: x);
+                x = x<0 ? 0 : (x>{{len_dimension}} ? {{len_dimension}}: x);
+
+                x1 = floor(x) + 1;
+                x0 = floor(x);
+
+                f11 = ctx->{{output_str}}[x0 + {{dimension}}*f];
+                f22 = x1 >= {{dimension}} ? 0 : ctx->{{output_str}}[x1 + {{dimension}}*f];
 
                 ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] = (f11*(x1 - x) + f22*(x - x0))/(x1 - x0);
                 ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] = {{{activation_function}}};
-- 
2.43.0


From b569a286f071b55057af1c53eeb019737a3c9492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:30 +0000
Subject: [PATCH 057/115] fix: resizing of a single element generates code

---
 .../generator/layers/resize/resize_cubic/ResizeCubicDefault.py  | 2 +-
 .../layers/resize/resize_linear/ResizeLinearDefault.py          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/resize/resize_cubic/ResizeCubicDefault.py b/src/acetone_nnet/generator/layers/resize/resize_cubic/ResizeCubicDefault.py
index cf27bbd..2a4444c 100644
--- a/src/acetone_nnet/generator/layers/resize/resize_cubic/ResizeCubicDefault.py
+++ b/src/acetone_nnet/generator/layers/resize/resize_cubic/ResizeCubicDefault.py
@@ -69,7 +69,7 @@ class ResizeCubicDefault(ResizeCubic):
             mustach_hash["coordinate_transformation_mode"] = self.coordinate_transformation_mode_mapping[
                 self.coordinate_transformation_mode]("i", 2, "x")
             dimension = "1D"
-        elif (self.input_height > 1) and (self.input_width > 1):
+        else:
             mustach_hash["input_width"] = self.input_width
             mustach_hash["input_height"] = self.input_height
             mustach_hash["coordinate_transformation_mode_x"] = self.coordinate_transformation_mode_mapping[
diff --git a/src/acetone_nnet/generator/layers/resize/resize_linear/ResizeLinearDefault.py b/src/acetone_nnet/generator/layers/resize/resize_linear/ResizeLinearDefault.py
index 748ed76..bed6c46 100644
--- a/src/acetone_nnet/generator/layers/resize/resize_linear/ResizeLinearDefault.py
+++ b/src/acetone_nnet/generator/layers/resize/resize_linear/ResizeLinearDefault.py
@@ -73,7 +73,7 @@ class ResizeLinearDefault(ResizeLinear):
             mustach_hash["coordinate_transformation_mode"] = self.coordinate_transformation_mode_mapping[
                 self.coordinate_transformation_mode]("i", 2, "x")
             dimension = "1D"
-        elif (self.input_height > 1) and (self.input_width > 1):
+        else:
             mustach_hash["len_height"] = self.input_height - 1
             mustach_hash["len_width"] = self.input_width - 1
             mustach_hash["input_width"] = self.input_width
-- 
2.43.0


From ba11f3ee81960e4feaed8e0e63430f067a392b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:03 +0000
Subject: [PATCH 058/115] fix: resizing to a given size keeps that size

---
 src/acetone_nnet/generator/layers/resize/Resize.py            | 2 ++
 .../layers/resize/resize_cubic/ResizeCubicDefault.py          | 4 ++--
 .../layers/resize/resize_linear/ResizeLinearDefault.py        | 4 ++--
 .../layers/resize/resize_nearest/ResizeNearestDefault.py      | 4 ++--
 4 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/resize/Resize.py b/src/acetone_nnet/generator/layers/resize/Resize.py
index 0c675ed..92d1618 100644
--- a/src/acetone_nnet/generator/layers/resize/Resize.py
+++ b/src/acetone_nnet/generator/layers/resize/Resize.py
@@ -103,6 +103,8 @@ class Resize(Layer):
         self.input_channels = input_shape[1]
         self.input_height = input_shape[2]
         self.input_width = input_shape[3]
+        self.boolean_resize = boolean_resize
+        self.target_size = target_size
         self.scale = [1., 0., 0., 0.]
         if boolean_resize:
             self.scale = target_size
diff --git a/src/acetone_nnet/generator/layers/resize/resize_cubic/ResizeCubicDefault.py b/src/acetone_nnet/generator/layers/resize/resize_cubic/ResizeCubicDefault.py
index 2a4444c..6c8be14 100644
--- a/src/acetone_nnet/generator/layers/resize/resize_cubic/ResizeCubicDefault.py
+++ b/src/acetone_nnet/generator/layers/resize/resize_cubic/ResizeCubicDefault.py
@@ -101,8 +101,8 @@ def resize_cubic_default_implementation(
         coordinate_transformation_mode=old_layer.coordinate_transformation_mode,
         exclude_outside=old_layer.exclude_outside,
         keep_aspect_ratio_policy=old_layer.keep_aspect_ratio_policy,
-        boolean_resize=True,
-        target_size=old_layer.scale,
+        boolean_resize=old_layer.boolean_resize,
+        target_size=old_layer.target_size,
         roi=old_layer.roi,
         extrapolation_value=old_layer.extrapolation_value,
         nearest_mode=old_layer.nearest_mode,
diff --git a/src/acetone_nnet/generator/layers/resize/resize_linear/ResizeLinearDefault.py b/src/acetone_nnet/generator/layers/resize/resize_linear/ResizeLinearDefault.py
index bed6c46..e85892a 100644
--- a/src/acetone_nnet/generator/layers/resize/resize_linear/ResizeLinearDefault.py
+++ b/src/acetone_nnet/generator/layers/resize/resize_linear/ResizeLinearDefault.py
@@ -106,8 +106,8 @@ def resize_linear_default_implementation(
         coordinate_transformation_mode=old_layer.coordinate_transformation_mode,
         exclude_outside=old_layer.exclude_outside,
         keep_aspect_ratio_policy=old_layer.keep_aspect_ratio_policy,
-        boolean_resize=True,
-        target_size=old_layer.scale,
+        boolean_resize=old_layer.boolean_resize,
+        target_size=old_layer.target_size,
         roi=old_layer.roi,
         extrapolation_value=old_layer.extrapolation_value,
         nearest_mode=old_layer.nearest_mode,
diff --git a/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearestDefault.py b/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearestDefault.py
index 0718c9b..3985897 100644
--- a/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearestDefault.py
+++ b/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearestDefault.py
@@ -105,8 +105,8 @@ def resize_nearest_default_implementation(
         coordinate_transformation_mode=old_layer.coordinate_transformation_mode,
         exclude_outside=old_layer.exclude_outside,
         keep_aspect_ratio_policy=old_layer.keep_aspect_ratio_policy,
-        boolean_resize=True,
-        target_size=old_layer.scale,
+        boolean_resize=old_layer.boolean_resize,
+        target_size=old_layer.target_size,
         roi=old_layer.roi,
         extrapolation_value=old_layer.extrapolation_value,
         nearest_mode=old_layer.nearest_mode,
-- 
2.43.0


From 123472afa6073e4192a2e21357c57141baab13c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:01 +0000
Subject: [PATCH 059/115] fix: tf_crop_and_resize generates code, and
 extrapolates values outside the region

---
 .../generator/layers/resize/Resize.py         | 37 ++++++++++++-------
 .../layers/resize/resize_cubic/ResizeCubic.py |  3 ++
 .../resize/resize_cubic/ResizeCubicDefault.py |  4 ++
 .../resize/resize_linear/ResizeLinear.py      |  5 ++-
 .../resize_linear/ResizeLinearDefault.py      |  4 ++
 .../resize/resize_nearest/ResizeNearest.py    |  3 +-
 .../resize_nearest/ResizeNearestDefault.py    |  7 +++-
 .../Resize/template_ResizeCubic1D.c.tpl       |  8 ++++
 .../Resize/template_ResizeCubic2D.c.tpl       |  8 ++++
 .../Resize/template_ResizeLinear1D.c.tpl      |  8 ++++
 .../Resize/template_ResizeLinear2D.c.tpl      |  8 ++++
 11 files changed, 78 insertions(+), 17 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/resize/Resize.py b/src/acetone_nnet/generator/layers/resize/Resize.py
index 92d1618..c192c93 100644
--- a/src/acetone_nnet/generator/layers/resize/Resize.py
+++ b/src/acetone_nnet/generator/layers/resize/Resize.py
@@ -188,8 +188,8 @@ class Resize(Layer):
                 msg += (f"Error: axe out of bound in Resize "
                         f"({axe} for tensor in 4 dimension with first dimension unused)")
                 msg += "\n"
-        if self.roi:
-            if self.axes:
+        if len(self.roi) > 0:
+            if len(self.axes) > 0:
                 if len(self.roi) != 2 * len(self.axes):
                     msg += (f"Error: non consistency between the number of roi and the axes given in Resize"
                             f"({len(self.roi)}!={len(self.axes)})")
@@ -382,9 +382,7 @@ class Resize(Layer):
             s += (f"{start}*({length_original} - 1) + {coord_resized}*({end} - {start})"
                   f"*({length_original} - 1)/({length_resized} - 1);")
         else:
-            s += f"0.5*({end} - {start})*({length_original} - 1);\n"
-        s += (f"                if({coord_original} < 0) || ({coord_original} > {length_original})"
-              f"{coord_original} = {self.extrapolation_value}")
+            s += f"0.5*({start} + {end})*({length_original} - 1);"
         return s
 
     def tf_crop_and_resize_implem(
@@ -405,12 +403,25 @@ class Resize(Layer):
             end = self.roi[7]
 
         if length_resized > 1:
-            coordinate_original = (start * (length_original - 1)
-                                   + coordinate * (end - start) * (length_original - 1)
-                                   / (length_resized - 1))
-        else:
-            coordinate_original = 0.5 * (start + end) * (length_original - 1)
+            return (start * (length_original - 1)
+                    + coordinate * (end - start) * (length_original - 1)
+                    / (length_resized - 1))
+        return 0.5 * (start + end) * (length_original - 1)
 
-        if coordinate_original >= length_original or coordinate_original < 0:
-            return self.extrapolation_value
-        return coordinate_original
\ No newline at end of file
+    def extrapolated(
+            self: Self,
+            **coordinates: int,
+    ) -> str:
+        """Generate the condition on the coordinates under which the output is the extrapolation value."""
+        if self.coordinate_transformation_mode != "tf_crop_and_resize":
+            return ""
+        return " || ".join(f"{x} < 0 || {x} > {length - 1}" for x, length in coordinates.items())
+
+    def extrapolated_implem(
+            self: Self,
+            x: float,
+            y: float,
+    ) -> bool:
+        """Check whether the output is the extrapolation value at these coordinates."""
+        return (self.coordinate_transformation_mode == "tf_crop_and_resize"
+                and not (0 <= x <= self.input_height - 1 and 0 <= y <= self.input_width - 1))
diff --git a/src/acetone_nnet/generator/layers/resize/resize_cubic/ResizeCubic.py b/src/acetone_nnet/generator/layers/resize/resize_cubic/ResizeCubic.py
index 91ea620..c7d9158 100644
--- a/src/acetone_nnet/generator/layers/resize/resize_cubic/ResizeCubic.py
+++ b/src/acetone_nnet/generator/layers/resize/resize_cubic/ResizeCubic.py
@@ -86,6 +86,9 @@ class ResizeCubic(Resize):
                     x0 = math.floor(x)
                     y = self.coordinate_transformation_mode_implem_mapping[self.coordinate_transformation_mode](j, 3)
                     y0 = math.floor(y)
+                    if self.extrapolated_implem(x, y):
+                        output[f, i, j] = self.extrapolation_value
+                        continue
 
                     s = y - y0
                     coeff1 = (((self.cubic_coeff_a * (s + 1) - 5 * self.cubic_coeff_a) * (s + 1)
diff --git a/src/acetone_nnet/generator/layers/resize/resize_cubic/ResizeCubicDefault.py b/src/acetone_nnet/generator/layers/resize/resize_cubic/ResizeCubicDefault.py
index 6c8be14..15a64a0 100644
--- a/src/acetone_nnet/generator/layers/resize/resize_cubic/ResizeCubicDefault.py
+++ b/src/acetone_nnet/generator/layers/resize/resize_cubic/ResizeCubicDefault.py
@@ -58,18 +58,22 @@ class ResizeCubicDefault(ResizeCubic):
         mustach_hash["output_channels"] = self.output_channels
         mustach_hash["output_height"] = self.output_height
         mustach_hash["output_width"] = self.output_width
+        mustach_hash["extrapolation_value"] = self.extrapolation_value
 
         if (self.input_height == 1) and (self.input_width > 1):
             mustach_hash["dimension"] = self.input_width
+            mustach_hash["extrapolated"] = self.extrapolated(x=self.input_width)
             mustach_hash["coordinate_transformation_mode"] = self.coordinate_transformation_mode_mapping[
                 self.coordinate_transformation_mode]("j", 3, "x")
             dimension = "1D"
         elif (self.input_height > 1) and (self.input_width == 1):
             mustach_hash["dimension"] = self.input_height
+            mustach_hash["extrapolated"] = self.extrapolated(x=self.input_height)
             mustach_hash["coordinate_transformation_mode"] = self.coordinate_transformation_mode_mapping[
                 self.coordinate_transformation_mode]("i", 2, "x")
             dimension = "1D"
         else:
+            mustach_hash["extrapolated"] = self.extrapolated(x=self.input_height, y=self.input_width)
             mustach_hash["input_width"] = self.input_width
             mustach_hash["input_height"] = self.input_height
             mustach_hash["coordinate_transformation_mode_x"] = self.coordinate_transformation_mode_mapping[
diff --git a/src/acetone_nnet/generator/layers/resize/resize_linear/ResizeLinear.py b/src/acetone_nnet/generator/layers/resize/resize_linear/ResizeLinear.py
index 9a35a99..1a2a17f 100644
--- a/src/acetone_nnet/generator/layers/resize/resize_linear/ResizeLinear.py
+++ b/src/acetone_nnet/generator/layers/resize/resize_linear/ResizeLinear.py
@@ -54,8 +54,11 @@ class ResizeLinear(Resize):
             for i in range(self.output_height):
                 for j in range(self.output_width):
                     x = self.coordinate_transformation_mode_implem_mapping[self.coordinate_transformation_mode](i, 2)
-                    x = np.clip(x, 0, self.input_height - 1)
                     y = self.coordinate_transformation_mode_implem_mapping[self.coordinate_transformation_mode](j, 3)
+                    if self.extrapolated_implem(x, y):
+                        output[f, i, j] = self.extrapolation_value
+                        continue
+                    x = np.clip(x, 0, self.input_height - 1)
                     y = np.clip(y, 0, self.input_width - 1)
 
                     x0, x1 = math.floor(x), math.floor(x) + 1
diff --git a/src/acetone_nnet/generator/layers/resize/resize_linear/ResizeLinearDefault.py b/src/acetone_nnet/generator/layers/resize/resize_linear/ResizeLinearDefault.py
index e85892a..725bbf1 100644
--- a/src/acetone_nnet/generator/layers/resize/resize_linear/ResizeLinearDefault.py
+++ b/src/acetone_nnet/generator/layers/resize/resize_linear/ResizeLinearDefault.py
@@ -60,22 +60,26 @@ class ResizeLinearDefault(ResizeLinear):
         mustach_hash["output_channels"] = self.output_channels
         mustach_hash["output_height"] = self.output_height
         mustach_hash["output_width"] = self.output_width
+        mustach_hash["extrapolation_value"] = self.extrapolation_value
 
         if (self.input_height == 1) and (self.input_width > 1):
             mustach_hash["len_dimension"] = self.input_width - 1
             mustach_hash["dimension"] = self.input_width
+            mustach_hash["extrapolated"] = self.extrapolated(x=self.input_width)
             mustach_hash["coordinate_transformation_mode"] = self.coordinate_transformation_mode_mapping[
                 self.coordinate_transformation_mode]("j", 3, "x")
             dimension = "1D"
         elif (self.input_height > 1) and (self.input_width == 1):
             mustach_hash["len_dimension"] = self.input_height - 1
             mustach_hash["dimension"] = self.input_height
+            mustach_hash["extrapolated"] = self.extrapolated(x=self.input_height)
             mustach_hash["coordinate_transformation_mode"] = self.coordinate_transformation_mode_mapping[
                 self.coordinate_transformation_mode]("i", 2, "x")
             dimension = "1D"
         else:
             mustach_hash["len_height"] = self.input_height - 1
             mustach_hash["len_width"] = self.input_width - 1
+            mustach_hash["extrapolated"] = self.extrapolated(x=self.input_height, y=self.input_width)
             mustach_hash["input_width"] = self.input_width
             mustach_hash["input_height"] = self.input_height
             mustach_hash["coordinate_transformation_mode_x"] = self.coordinate_transformation_mode_mapping[
diff --git a/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearest.py b/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearest.py
index 9dd8394..62b6c66 100644
--- a/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearest.py
+++ b/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearest.py
@@ -91,5 +91,6 @@ class ResizeNearest(Resize):
                     x0 = max(0, min(self.input_height - 1, x0))
                     y0 = max(0, min(self.input_width - 1, y0))
 
-                    output[f, i, j] = input_array[f, x0, y0]
+                    output[f, i, j] = (self.extrapolation_value if self.extrapolated_implem(x, y)
+                                       else input_array[f, x0, y0])
         return self.activation_function.compute(output)
diff --git a/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearestDefault.py b/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearestDefault.py
index 3985897..ec3a33a 100644
--- a/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearestDefault.py
+++ b/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearestDefault.py
@@ -68,8 +68,11 @@ class ResizeNearestDefault(ResizeNearest):
         mustach_hash["road"] = self.path
         mustach_hash["size"] = self.size
 
-        mustach_hash["activation_function"] = self.activation_function.write_activation_str(
-            f"ctx->{output_str}[y0 + {self.input_width}*(x0 + {self.input_height}*f)]")
+        value = f"ctx->{output_str}[y0 + {self.input_width}*(x0 + {self.input_height}*f)]"
+        extrapolated = self.extrapolated(x=self.input_height, y=self.input_width)
+        if extrapolated:
+            value = f"({extrapolated} ? {self.extrapolation_value} : {value})"
+        mustach_hash["activation_function"] = self.activation_function.write_activation_str(value)
 
         mustach_hash["len_height"] = self.input_height - 1
         mustach_hash["len_width"] = self.input_width - 1
diff --git a/src/acetone_nnet/templates/layers/Resize/template_ResizeCubic1D.c.tpl b/src/acetone_nnet/templates/layers/Resize/template_ResizeCubic1D.c.tpl
index b7b7e4f..22d609f 100644
--- a/src/acetone_nnet/templates/layers/Resize/template_ResizeCubic1D.c.tpl
+++ b/src/acetone_nnet/templates/layers/Resize/template_ResizeCubic1D.c.tpl
@@ -9,6 +9,14 @@
             {
                 {{{coordinate_transformation_mode}}}
                 x0 = floor(x);
+                {{#extrapolated}}
+                if ({{{extrapolated}}})
+                {
+                    ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] = {{extrapolation_value}};
+                    ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] = {{{activation_function}}};
+                    continue;
+                }
+                {{/extrapolated}}
 
                 f_1 = x0-1 < 0 ? ctx->{{output_str}}[0 + {{dimension}}*f] : x0-1 >= {{dimension}} ? ctx->{{output_str}}[{{dimension}} - 1 + {{dimension}}*f] : ctx->{{output_str}}[x0-1 + {{dimension}}*f];
                 f0 = x0 < 0 ? ctx->{{output_str}}[0 + {{dimension}}*f] : x0 >= {{dimension}} ? ctx->{{output_str}}[{{dimension}} - 1 + {{dimension}}*f] : ctx->{{output_str}}[x0 + {{dimension}}*f];
diff --git a/src/acetone_nnet/templates/layers/Resize/template_ResizeCubic2D.c.tpl b/src/acetone_nnet/templates/layers/Resize/template_ResizeCubic2D.c.tpl
index 41542cf..ebd9dfe 100644
--- a/src/acetone_nnet/templates/layers/Resize/template_ResizeCubic2D.c.tpl
+++ b/src/acetone_nnet/templates/layers/Resize/template_ResizeCubic2D.c.tpl
@@ -11,6 +11,14 @@
                 x0 = floor(x);
                 {{{coordinate_transformation_mode_y}}}
                 y0 = floor(y);
+                {{#extrapolated}}
+                if ({{{extrapolated}}})
+                {
+                    ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] = {{extrapolation_value}};
+                    ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] = {{{activation_function}}};
+                    continue;
+                }
+                {{/extrapolated}}
 
                 col_index = y0-1 < 0 ? 0 : y0-1 >= {{input_width}} ? {{input_width}} - 1 : y0-1;
                 f_1 = x0-1 < 0 ? ctx->{{output_str}}[col_index + {{input_width}}*(0 + {{input_height}}*f)] : x0-1 >= {{input_height}} ? ctx->{{output_str}}[col_index + {{input_width}}*({{input_height}} - 1 + {{input_height}}*f)] : ctx->{{output_str}}[col_index + {{input_width}}*(x0-1 + {{input_height}}*f)];
diff --git a/src/acetone_nnet/templates/layers/Resize/template_ResizeLinear1D.c.tpl b/src/acetone_nnet/templates/layers/Resize/template_ResizeLinear1D.c.tpl
index 93e0d3e..47e478b 100644
--- a/src/acetone_nnet/templates/layers/Resize/template_ResizeLinear1D.c.tpl
+++ b/src/acetone_nnet/templates/layers/Resize/template_ResizeLinear1D.c.tpl
@@ -7,6 +7,14 @@
             for(j = 0; j < {{output_width}}; ++j)
             {
                 {{{coordinate_transformation_mode}}}
+                {{#extrapolated}}
+                if ({{{extrapolated}}})
+                {
+                    ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] = {{extrapolation_value}};
+                    ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] = {{{activation_function}}};
+                    continue;
+                }
+                {{/extrapolated}}
                 x = x<0 ? 0 : (x>{{len_dimension}} ? {{len_dimension}}: x);
 
                 x1 = floor(x) + 1;
diff --git a/src/acetone_nnet/templates/layers/Resize/template_ResizeLinear2D.c.tpl b/src/acetone_nnet/templates/layers/Resize/template_ResizeLinear2D.c.tpl
index f805da3..571ed20 100644
--- a/src/acetone_nnet/templates/layers/Resize/template_ResizeLinear2D.c.tpl
+++ b/src/acetone_nnet/templates/layers/Resize/template_ResizeLinear2D.c.tpl
@@ -8,6 +8,14 @@
             {
                 {{{coordinate_transformation_mode_x}}}
                 {{{coordinate_transformation_mode_y}}}
+                {{#extrapolated}}
+                if ({{{extrapolated}}})
+                {
+                    ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] = {{extrapolation_value}};
+                    ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] = {{{activation_function}}};
+                    continue;
+                }
+                {{/extrapolated}}
                 x = x<0 ? 0 : (x>{{len_height}} ? {{len_height}}: x);
                 y = y<0 ? 0 : (y>{{len_width}} ? {{len_width}}: y);
 
-- 
2.43.0


From c4fbf87000881991861909261d529a76402c4534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:01 +0000
Subject: [PATCH 060/115] fix: wrap padding of a whole extent reads inside its
 input

---
 .../templates/layers/Pad/template_Wrap_Pad.c.tpl            | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/acetone_nnet/templates/layers/Pad/template_Wrap_Pad.c.tpl b/src/acetone_nnet/templates/layers/Pad/template_Wrap_Pad.c.tpl
index 5bf4f2f..e79b780 100644
--- a/src/acetone_nnet/templates/layers/Pad/template_Wrap_Pad.c.tpl
+++ b/src/acetone_nnet/templates/layers/Pad/template_Wrap_Pad.c.tpl
@@ -4,7 +4,7 @@
                 }
                 if(f < {{pads_front}})
                 {
-                    new_f = (new_f) % ({{input_channels}}) +  {{input_channels}};
+                    new_f = ((new_f) % ({{input_channels}}) + {{input_channels}}) % ({{input_channels}});
                 }
 
                 if(i >= {{height_and_pad_top}})
@@ -13,7 +13,7 @@
                 }
                 if(i < {{pads_top}})
                 {
-                    new_i = (new_i) % ({{input_height}}) + {{input_height}};
+                    new_i = ((new_i) % ({{input_height}}) + {{input_height}}) % ({{input_height}});
                 }
 
                 if(j >= {{width_and_pad_left}})
@@ -22,5 +22,5 @@
                 }
                 if(j < {{pads_left}})
                 {
-                    new_j = (new_j) % ({{input_width}}) + {{input_width}};
+                    new_j = ((new_j) % ({{input_width}}) + {{input_width}}) % ({{input_width}});
                 }
\ No newline at end of file
-- 
2.43.0


From deeef3794ed21ebc3535853a0f4b72ee4fc6077f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:24 +0000
Subject: [PATCH 061/115] fix: the reference of a grouped convolution reads the
 channels of the group of each filter

---
 src/acetone_nnet/generator/layers/convolution/Conv2D.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/generator/layers/convolution/Conv2D.py b/src/acetone_nnet/generator/layers/convolution/Conv2D.py
index 1a34b85..cf07d18 100644
--- a/src/acetone_nnet/generator/layers/convolution/Conv2D.py
+++ b/src/acetone_nnet/generator/layers/convolution/Conv2D.py
@@ -270,13 +270,16 @@ class Conv2D(Layer):
         dilation = self.dilation_rate
         window_h = dilation * (self.kernel_h - 1) + 1
         window_w = dilation * (self.kernel_w - 1) + 1
+        group_channels = self.input_channels // self.group
         for f in range(self.nb_filters):
+            # Channels of the group of filter f
+            first = (f * self.group // self.nb_filters) * group_channels
             for i in range(self.output_height):
                 for j in range(self.output_width):
                     w = (
                         self.weights[f, :, :, :]
                         * input_padded[
-                            ::self.group,
+                            first : first + group_channels,
                             i * self.strides : i * self.strides + window_h : dilation,
                             j * self.strides : j * self.strides + window_w : dilation,
                         ]
-- 
2.43.0


From 0171ed2732e20fdd3d32ffc10b5e07df9bd2d323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:36 +0000
Subject: [PATCH 062/115] fix: binary parameters and test inputs are written in
 the data type of the network

---
 src/acetone_nnet/generator/neural_network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index 1eb68ac..8d806dc 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -662,7 +662,7 @@ class CodeGenerator(ABC):
         """Generate C code for graph test dataset."""
         if self.bin_dataset:
             with Path.open(output_dir / "test_dataset.dat", "w+") as test_dataset_bin:
-                self.test_dataset.copy("C").tofile(test_dataset_bin)
+                self.test_dataset.astype(self.data_type_py).tofile(test_dataset_bin)
         elif not self.read_ext_input:
             # Generate test source file
             dataset = "{"
@@ -1162,7 +1162,7 @@ class CodeGenerator(ABC):
                 #print(f"{s} {symtab[s].shape} {symtab[s].dtype}")
                 parameters_bin.seek(align_up(parameters_bin.tell(),self.target_page_size),0)
                 self.symtab += f"--add-symbol {s}=.rodata:{parameters_bin.tell()} "
-                symtab[s].tofile(parameters_bin)
+                np.asarray(symtab[s], dtype=self.data_type_py).tofile(parameters_bin)
         logging.info("Generated parameter .dat file.")
 
     def generate_parameter_file(self: Self, output_dir: Path) -> None:
-- 
2.43.0


From 2b1b3cf664a282d35d50b7262274bc24b8228d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:36 +0000
Subject: [PATCH 063/115] fix: constant operands of broadcast layers are
 written with the binary parameters

---
 src/acetone_nnet/generator/neural_network.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index 8d806dc..52a3386 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -1153,6 +1153,9 @@ class CodeGenerator(ABC):
                 symtab[f"var_{layer.name}_{layer.idx:02d}"] = layer.var
                 symtab[f"scale_{layer.name}_{layer.idx:02d}"] = layer.scale
 
+            if issubclass(type(layer), Broadcast) and layer.constant is not None:
+                symtab[f"constant_{layer.name}_{layer.idx:02d}"] = layer.constant
+
         def align_up(value, alignment):
             return (value + (alignment - 1)) & ~(alignment - 1)
 
-- 
2.43.0


From 868a36d5a30eb072965c5299fb918587a090eba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:19 +0000
Subject: [PATCH 064/115] fix: a Resize node without its optional inputs is
 imported

---
 src/acetone_nnet/importers/ONNX_importer/create_layer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index e1e4032..b0e6a97 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -423,6 +423,8 @@ def create_resize(
     ]
     attributes = extract_attributes(node)
     attributes = resize_set_default_attributes_values(attributes, input_shape)
+    # roi, scales and sizes are optional
+    initializers += [[]] * (3 - len(initializers))
 
     if initializers[2]:
         # target size
-- 
2.43.0


From 15deece80a98c20daa90c22cea68504bc13adfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:19 +0000
Subject: [PATCH 065/115] fix: a Pad node without its optional inputs is
 imported

---
 .../importers/ONNX_importer/create_layer.py            | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index b0e6a97..9d79351 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -477,8 +477,12 @@ def create_pad(
     ]
     attributes = extract_attributes(node)
 
-    initializer_length = 2
-    if len(initializers) == initializer_length:
+    # The constant value and the axes are optional
+    initializers += [[]] * (3 - len(initializers))
+    constant_value = (
+        float(onnx.numpy_helper.to_array(initializers[1])) if initializers[1] else 0.0
+    )
+    if not initializers[2]:
         axes = []
     else:
         axes = onnx.numpy_helper.to_array(initializers[2])
@@ -493,7 +497,7 @@ def create_pad(
         idx=idx,
         size=size,
         pads=list(map(int, onnx.numpy_helper.to_array(initializers[0]))),
-        constant_value=float(onnx.numpy_helper.to_array(initializers[1])),
+        constant_value=constant_value,
         axes=axes,
         input_shape=list(map(int, input_shape)),
         activation_function=Linear(),
-- 
2.43.0


From cea5cf8f576506fcabf015bda84f24a728f7567b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:19 +0000
Subject: [PATCH 066/115] fix: a Conv node without kernel_shape is imported

---
 src/acetone_nnet/importers/ONNX_importer/create_layer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index 9d79351..59b271c 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -330,8 +330,8 @@ def create_conv(
         size=size,
         padding=attributes["auto_pad"],
         strides=attributes["strides"][0],
-        kernel_h=attributes["kernel_shape"][0],
-        kernel_w=attributes["kernel_shape"][1],
+        kernel_h=weights.shape[2],
+        kernel_w=weights.shape[3],
         dilation_rate=attributes["dilations"][0],
         nb_filters=initializers[0].dims[0],
         input_shape=input_shape,
-- 
2.43.0


From e9c97c8a1ba10a32433de58ef3006b705f8fdeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:30 +0000
Subject: [PATCH 067/115] fix: a Pad node without mode pads with a constant

---
 src/acetone_nnet/importers/ONNX_importer/create_layer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index 59b271c..ef96fcf 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -492,7 +492,7 @@ def create_pad(
                 axe = len(input_shape) - axe
             axes[i] = axe
     return create_pad_obj(
-        mode=attributes["mode"],
+        mode=attributes.get("mode", b"constant"),
         original_name=node.name,
         idx=idx,
         size=size,
-- 
2.43.0


From bc1c456a51c1866e5720ecc662ab8e55ba96a2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:02 +0000
Subject: [PATCH 068/115] fix: PyTorch operators that are not supported are
 refused

Operators were recognised by a part of their name (leaky_relu and relu6 as
relu, bilinear as linear, addmm as add) and the others ignored, which drops
them from the network when they come last.
---
 .../PYTORCH_importer/parse_pytorch.py         | 34 ++++++++++++-------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
index 202e0de..fc7b1f6 100644
--- a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
+++ b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
@@ -135,7 +135,9 @@ class ShapeAwareVisitor(FXGraphVisitor):
     def visit_call_function(self, node: torch.fx.Node):
         target_name = node.target.__name__ if hasattr(node.target, '__name__') else str(node.target)
         self._print_node("FUNC", node, f"call: {target_name}(args={node.args})")
-        if "linear" in target_name:
+        # conv2d.padding -> conv2d, relu_.default -> relu
+        operator = target_name.split(".")[0].rstrip("_")
+        if operator == "linear":
             this_layer = Dense(
                 original_name=node.name,
                 idx=self.idx,
@@ -148,16 +150,16 @@ class ShapeAwareVisitor(FXGraphVisitor):
             this_layer.previous_layer.append(self.layerdic[node.args[0].name][0])
             self.layerdic[node.name] = (this_layer, node.meta['val'].shape)
             self.idx+=1
-        elif "relu" in target_name:
+        elif operator == "relu":
             self.layerdic[node.args[0].name][0].activation_function=ReLu() # set previous layer activation 
             self.layerdic[node.name] = self.layerdic[node.args[0].name] # register 
-        elif "clamp" in target_name:
+        elif operator in ("clamp", "clip"):
             self.layerdic[node.args[0].name][0].activation_function=Clip( # set previous layer activation 
                 max_value=node.args[2],
                 min_value=node.args[1]
             )
             self.layerdic[node.name] = self.layerdic[node.args[0].name] # register 
-        elif "conv2d" in target_name:
+        elif operator == "conv2d":
             #first call to conv2d is expected to decide memory layout format based on its input tensor
             if not hasattr(self,"data_format"):
                 self.data_format = "channels_last" if self.module.state_dict()[node.args[1].target].is_contiguous(memory_format=torch.channels_last) else "channels_first"
@@ -188,7 +190,7 @@ class ShapeAwareVisitor(FXGraphVisitor):
             this_layer.previous_layer.append(self.layerdic[node.args[0].name][0])
             self.layerdic[node.name] = (this_layer, node.meta['val'].shape)
             self.idx+=1
-        elif "batch_norm" in target_name:
+        elif operator == "batch_norm":
             # Fusing batch normalization to previous conv2d https://pytorch-cn.com/tutorials/intermediate/fx_conv_bn_fuser.html
             self.layerdic[node.name] = self.layerdic[node.args[0].name]
             bn_w = self.module.state_dict()[node.args[1].target]
@@ -203,8 +205,9 @@ class ShapeAwareVisitor(FXGraphVisitor):
             conv_b = (conv_b - bn_rm) * bn_var_rsqrt * bn_w + bn_b
             self.layerdic[node.args[0].name][0].weights = conv_w.numpy().astype(np.float32)
             self.layerdic[node.args[0].name][0].biases = conv_b.numpy().astype(np.float32)
-        elif "add" in target_name:
-            if node.args[0].name in self.layerdic.keys(): # bypass bn2_num_batches_tracked + 1
+        elif operator == "add":
+            operands = [arg.name for arg in node.args if isinstance(arg, torch.fx.Node)]
+            if any(name in self.layerdic for name in operands): # bypass bn2_num_batches_tracked + 1
                 this_layer =  Add(
                     original_name=node.name,
                     idx=self.idx,
@@ -220,7 +223,7 @@ class ShapeAwareVisitor(FXGraphVisitor):
                 self.idx+=1
             else:
                 logging.info(f"Add layer bypassed: {node.args[0].name}")
-        elif "cat" in target_name:
+        elif operator in ("cat", "concat", "concatenate"):
             this_layer = Concatenate(
                     original_name=node.name,
                     idx=self.idx,
@@ -235,11 +238,12 @@ class ShapeAwareVisitor(FXGraphVisitor):
                 this_layer.previous_layer.append(self.layerdic[node.args[0][i].name][0])
             self.layerdic[node.name] = (this_layer, node.meta['val'].shape)
             self.idx+=1
-        elif "dropout" in target_name:
+        elif operator in ("dropout", "feature_dropout", "alpha_dropout"):
             self.layerdic[node.name] = self.layerdic[node.args[0].name]
-        elif "flatten" in target_name:
-            self.layerdic[node.name] = self.layerdic[node.args[0].name]
-        elif "max_pool2d" in target_name:
+        elif operator in ("flatten", "view", "reshape", "squeeze", "unsqueeze", "contiguous", "clone", "detach"):
+            # the values and their order stay the same
+            self.layerdic[node.name] = (self.layerdic[node.args[0].name][0], node.meta['val'].shape)
+        elif operator == "max_pool2d":
             kernel = node.args[1][0] if len(node.args) > 1 else 1
             stride = node.args[2][0] if len(node.args) > 2 else 1
             padding = node.args[3] + node.args[3] if len(node.args) > 3 else [0,0,0,0]
@@ -260,7 +264,7 @@ class ShapeAwareVisitor(FXGraphVisitor):
             this_layer.previous_layer.append(self.layerdic[node.args[0].name][0])
             self.layerdic[node.name] = (this_layer, node.meta['val'].shape)
             self.idx+=1
-        elif "adaptive_avg_pool2d" in target_name:
+        elif operator == "adaptive_avg_pool2d":
             this_layer = AveragePooling2D(
                 original_name=node.name,
                 idx=self.idx,
@@ -277,12 +281,16 @@ class ShapeAwareVisitor(FXGraphVisitor):
             this_layer.previous_layer.append(self.layerdic[node.args[0].name][0])
             self.layerdic[node.name] = (this_layer, node.meta['val'].shape)
             self.idx+=1
+        else:
+            raise TypeError(f"Error: operator {target_name} not supported\n")
 
     def visit_call_module(self, node: torch.fx.Node):
         self._print_node("MODULE", node, f"mod: {node.target}")
+        raise TypeError(f"Error: module {node.target} not supported\n")
 
     def visit_call_method(self, node: torch.fx.Node):
         self._print_node("METHOD", node, f"obj.{node.target}(args={node.args})")
+        raise TypeError(f"Error: method {node.target} not supported\n")
 
     def visit_get_attr(self, node: torch.fx.Node):
         # Attributes usually identify parameters/buffers, which also have shapes in ExportedProgram
-- 
2.43.0


From 6ca660a2425949d41d1297cccded5f99838829a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:32 +0000
Subject: [PATCH 069/115] fix: a PyTorch activation changes only the value it
 is applied to

An activation was put on the layer that computes its operand even when this
layer is the input, already has an activation, or has other consumers.
---
 .../PYTORCH_importer/parse_pytorch.py         | 38 ++++++++++++++++---
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
index fc7b1f6..de03656 100644
--- a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
+++ b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
@@ -4,6 +4,7 @@ import numpy as np
 
 from acetone_nnet.generator import (
     ActivationFunctions,
+    ActivationLayer,
     Add,
     Clip,
     Average,
@@ -132,6 +133,35 @@ class ShapeAwareVisitor(FXGraphVisitor):
         self.idx+=1
 
 
+    def _mergeable(self, node: torch.fx.Node) -> bool:
+        """Say whether the layer that computes a node can apply an operation on top of it."""
+        layer = self.layerdic[node.name][0]
+        if isinstance(layer, InputLayer) or not isinstance(layer.activation_function, Linear):
+            return False
+        # the value before the operation must be used nowhere else
+        while len(node.users) == 1 and node.name != layer.original_name:
+            node = node.args[0]
+        return len(node.users) == 1
+
+    def _activate(self, node: torch.fx.Node, function: ActivationFunctions):
+        """Apply an activation function to the first operand of a node."""
+        previous_layer = self.layerdic[node.args[0].name][0]
+        shape = node.meta['val'].shape
+        if self._mergeable(node.args[0]):
+            previous_layer.activation_function = function # set previous layer activation
+            self.layerdic[node.name] = (previous_layer, shape) # register
+        else:
+            this_layer = ActivationLayer(
+                original_name=node.name,
+                idx=self.idx,
+                size=node.meta['val'].numel(),
+                activation_function=function,
+            )
+            previous_layer.next_layer.append(this_layer)
+            this_layer.previous_layer.append(previous_layer)
+            self.layerdic[node.name] = (this_layer, shape)
+            self.idx+=1
+
     def visit_call_function(self, node: torch.fx.Node):
         target_name = node.target.__name__ if hasattr(node.target, '__name__') else str(node.target)
         self._print_node("FUNC", node, f"call: {target_name}(args={node.args})")
@@ -151,14 +181,12 @@ class ShapeAwareVisitor(FXGraphVisitor):
             self.layerdic[node.name] = (this_layer, node.meta['val'].shape)
             self.idx+=1
         elif operator == "relu":
-            self.layerdic[node.args[0].name][0].activation_function=ReLu() # set previous layer activation 
-            self.layerdic[node.name] = self.layerdic[node.args[0].name] # register 
+            self._activate(node, ReLu())
         elif operator in ("clamp", "clip"):
-            self.layerdic[node.args[0].name][0].activation_function=Clip( # set previous layer activation 
+            self._activate(node, Clip(
                 max_value=node.args[2],
                 min_value=node.args[1]
-            )
-            self.layerdic[node.name] = self.layerdic[node.args[0].name] # register 
+            ))
         elif operator == "conv2d":
             #first call to conv2d is expected to decide memory layout format based on its input tensor
             if not hasattr(self,"data_format"):
-- 
2.43.0


From 52bc98c867342890cb827b68f251c320f9a0cfc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:13 +0000
Subject: [PATCH 070/115] fix: a PyTorch batch normalisation is only folded
 into a convolution used nowhere else

It was folded into the layer before it even when the value is used elsewhere
or an activation comes in between.
---
 .../PYTORCH_importer/parse_pytorch.py         | 44 ++++++++++++++-----
 1 file changed, 33 insertions(+), 11 deletions(-)

diff --git a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
index de03656..c0f6595 100644
--- a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
+++ b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
@@ -219,20 +219,42 @@ class ShapeAwareVisitor(FXGraphVisitor):
             self.layerdic[node.name] = (this_layer, node.meta['val'].shape)
             self.idx+=1
         elif operator == "batch_norm":
-            # Fusing batch normalization to previous conv2d https://pytorch-cn.com/tutorials/intermediate/fx_conv_bn_fuser.html
-            self.layerdic[node.name] = self.layerdic[node.args[0].name]
-            bn_w = self.module.state_dict()[node.args[1].target]
-            bn_b = self.module.state_dict()[node.args[2].target]
+            if node.args[5]:
+                raise TypeError("Error: batch_norm in training mode not supported\n")
+            previous_layer = self.layerdic[node.args[0].name][0]
+            shape = node.meta['val'].shape
             bn_rm = self.module.state_dict()[node.args[3].target]
             bn_rv = self.module.state_dict()[node.args[4].target]
+            bn_w = self.module.state_dict()[node.args[1].target] if node.args[1] is not None else torch.ones_like(bn_rm)
+            bn_b = self.module.state_dict()[node.args[2].target] if node.args[2] is not None else torch.zeros_like(bn_rm)
             bn_eps = node.args[7]
-            bn_var_rsqrt = torch.rsqrt(bn_rv + bn_eps)
-            conv_w = torch.from_numpy(self.layerdic[node.args[0].name][0].weights)
-            conv_b = torch.from_numpy(self.layerdic[node.args[0].name][0].biases)
-            conv_w = conv_w * (bn_w * bn_var_rsqrt).reshape([-1] + [1] * (len(conv_w.shape) - 1))
-            conv_b = (conv_b - bn_rm) * bn_var_rsqrt * bn_w + bn_b
-            self.layerdic[node.args[0].name][0].weights = conv_w.numpy().astype(np.float32)
-            self.layerdic[node.args[0].name][0].biases = conv_b.numpy().astype(np.float32)
+            if isinstance(previous_layer, Conv2D) and self._mergeable(node.args[0]):
+                # Fusing batch normalization to previous conv2d https://pytorch-cn.com/tutorials/intermediate/fx_conv_bn_fuser.html
+                self.layerdic[node.name] = (previous_layer, shape)
+                bn_var_rsqrt = torch.rsqrt(bn_rv + bn_eps)
+                conv_w = torch.from_numpy(previous_layer.weights)
+                conv_b = torch.from_numpy(previous_layer.biases)
+                conv_w = conv_w * (bn_w * bn_var_rsqrt).reshape([-1] + [1] * (len(conv_w.shape) - 1))
+                conv_b = (conv_b - bn_rm) * bn_var_rsqrt * bn_w + bn_b
+                previous_layer.weights = conv_w.numpy().astype(np.float32)
+                previous_layer.biases = conv_b.numpy().astype(np.float32)
+            else:
+                this_layer = BatchNormalization(
+                    original_name=node.name,
+                    idx=self.idx,
+                    size=node.meta['val'].numel(),
+                    input_shape=[*shape, 1, 1][:4],
+                    epsilon=bn_eps,
+                    scale=bn_w.numpy(),
+                    biases=bn_b.numpy(),
+                    mean=bn_rm.numpy(),
+                    var=bn_rv.numpy(),
+                    activation_function=Linear(),
+                )
+                previous_layer.next_layer.append(this_layer)
+                this_layer.previous_layer.append(previous_layer)
+                self.layerdic[node.name] = (this_layer, shape)
+                self.idx+=1
         elif operator == "add":
             operands = [arg.name for arg in node.args if isinstance(arg, torch.fx.Node)]
             if any(name in self.layerdic for name in operands): # bypass bn2_num_batches_tracked + 1
-- 
2.43.0


From e4e6e01617914122bd7fae08bb26c2dd937f200d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:59 +0000
Subject: [PATCH 071/115] fix: PyTorch layers without biases, with rectangular
 kernels or named padding are imported

The height of a kernel was taken from its width, and strides and dilations
that differ between the axes were read as those of the height.
---
 .../PYTORCH_importer/parse_pytorch.py         | 28 +++++++++++++++----
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
index c0f6595..22d224c 100644
--- a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
+++ b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
@@ -133,6 +133,20 @@ class ShapeAwareVisitor(FXGraphVisitor):
         self.idx+=1
 
 
+    def _biases(self, node: torch.fx.Node) -> np.ndarray:
+        """Return the optional biases of a node, one for each row of its weights."""
+        weights = self.module.state_dict()[node.args[1].target].numpy()
+        if len(node.args) > 2 and node.args[2] is not None:
+            return self.module.state_dict()[node.args[2].target].numpy()
+        return np.zeros(weights.shape[0], dtype=weights.dtype)
+
+    def _uniform(self, node: torch.fx.Node, i: int, default: int) -> int:
+        """Return an optional argument of a node, the same along both axes."""
+        values = node.args[i] if len(node.args) > i else [default]
+        if any(v != values[0] for v in values):
+            raise ValueError(f"Error: argument {values} of {node.target} differs between the axes\n")
+        return values[0]
+
     def _mergeable(self, node: torch.fx.Node) -> bool:
         """Say whether the layer that computes a node can apply an operation on top of it."""
         layer = self.layerdic[node.name][0]
@@ -173,7 +187,7 @@ class ShapeAwareVisitor(FXGraphVisitor):
                 idx=self.idx,
                 size=node.meta['val'].numel(),
                 weights=self.module.state_dict()[node.args[1].target].numpy().T,
-                biases=self.module.state_dict()[node.args[2].target].numpy(),
+                biases=self._biases(node),
                 activation_function=Linear()
             )
             self.layerdic[node.args[0].name][0].next_layer.append(this_layer)
@@ -192,9 +206,11 @@ class ShapeAwareVisitor(FXGraphVisitor):
             if not hasattr(self,"data_format"):
                 self.data_format = "channels_last" if self.module.state_dict()[node.args[1].target].is_contiguous(memory_format=torch.channels_last) else "channels_first"
                 logging.info(f"[LAYOUT] : {self.data_format}")
-            stride = node.args[3][0] if len(node.args) > 3 else 1
-            padding = node.args[4] + node.args[4] if len(node.args) > 4 else [0,0,0,0]
-            dilation = node.args[5][0] if len(node.args) > 5 else 1
+            stride = self._uniform(node, 3, 1)
+            padding = node.args[4] if len(node.args) > 4 else [0, 0]
+            if not isinstance(padding, str): # otherwise 'same' or 'valid'
+                padding = [*padding, *padding]
+            dilation = self._uniform(node, 5, 1)
             group = node.args[6] if len(node.args) > 6 else 1
             this_layer = Conv2D(
                     conv_algorithm="specs",
@@ -204,14 +220,14 @@ class ShapeAwareVisitor(FXGraphVisitor):
                     padding=padding,
                     strides=stride,
                     group=group,
-                    kernel_h=self.module.state_dict()[node.args[1].target].shape[-1],
+                    kernel_h=self.module.state_dict()[node.args[1].target].shape[-2],
                     kernel_w=self.module.state_dict()[node.args[1].target].shape[-1],
                     dilation_rate=dilation,
                     nb_filters=node.meta['val'].shape[1],
                     input_shape=self.layerdic[node.args[0].name][1],
                     output_shape=node.meta['val'].shape,
                     weights=self.module.state_dict()[node.args[1].target].numpy(),
-                    biases=self.module.state_dict()[node.args[2].target].numpy() if node.args[2] is not None else np.zeros(node.meta['val'].shape[1],dtype=np.float32),
+                    biases=self._biases(node),
                     activation_function=Linear()
                 )
             self.layerdic[node.args[0].name][0].next_layer.append(this_layer)
-- 
2.43.0


From f5c8b249554c9dd41ab1676a1706acbed5f4d2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:19 +0000
Subject: [PATCH 072/115] fix: the default stride of a PyTorch pooling is its
 window, its dilation is refused

---
 .../importers/PYTORCH_importer/parse_pytorch.py        | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
index 22d224c..db911f0 100644
--- a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
+++ b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
@@ -310,10 +310,12 @@ class ShapeAwareVisitor(FXGraphVisitor):
             # the values and their order stay the same
             self.layerdic[node.name] = (self.layerdic[node.args[0].name][0], node.meta['val'].shape)
         elif operator == "max_pool2d":
-            kernel = node.args[1][0] if len(node.args) > 1 else 1
-            stride = node.args[2][0] if len(node.args) > 2 else 1
-            padding = node.args[3] + node.args[3] if len(node.args) > 3 else [0,0,0,0]
-            dilation = node.args[4][0] if len(node.args) > 4 else 1
+            kernel = self._uniform(node, 1, 1)
+            # the windows do not overlap by default
+            stride = self._uniform(node, 2, kernel) if len(node.args) > 2 and node.args[2] else kernel
+            padding = [*node.args[3], *node.args[3]] if len(node.args) > 3 else [0,0,0,0]
+            if self._uniform(node, 4, 1) != 1:
+                raise ValueError(f"Error: dilation of {node.target} not supported\n")
             this_layer = MaxPooling2D(
                     original_name=node.name,
                     idx=self.idx,
-- 
2.43.0


From cacf0cfe08afd7910b05c950c659f708b9ce0cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:53 +0000
Subject: [PATCH 073/115] fix: PyTorch sums and concatenations of values of
 less than four axes are imported

The factor alpha of a sum was ignored; it is refused.
---
 .../PYTORCH_importer/parse_pytorch.py          | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
index db911f0..e7feef1 100644
--- a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
+++ b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
@@ -147,6 +147,10 @@ class ShapeAwareVisitor(FXGraphVisitor):
             raise ValueError(f"Error: argument {values} of {node.target} differs between the axes\n")
         return values[0]
 
+    def _extended(self, shape: torch.Size) -> list[int]:
+        """Return a shape with the axes (batch, channels, height) it lacks."""
+        return [1] * (4 - len(shape)) + [*shape]
+
     def _mergeable(self, node: torch.fx.Node) -> bool:
         """Say whether the layer that computes a node can apply an operation on top of it."""
         layer = self.layerdic[node.name][0]
@@ -274,12 +278,14 @@ class ShapeAwareVisitor(FXGraphVisitor):
         elif operator == "add":
             operands = [arg.name for arg in node.args if isinstance(arg, torch.fx.Node)]
             if any(name in self.layerdic for name in operands): # bypass bn2_num_batches_tracked + 1
+                if node.kwargs.get("alpha", 1) != 1:
+                    raise ValueError(f"Error: factor alpha of {target_name} not supported\n")
                 this_layer =  Add(
                     original_name=node.name,
                     idx=self.idx,
                     size=node.meta['val'].numel(),
-                    input_shapes=[self.layerdic[node.args[i].name][1] for i in range(len(node.args))],
-                    output_shape=node.meta['val'].shape,
+                    input_shapes=[self._extended(self.layerdic[node.args[i].name][1]) for i in range(len(node.args))],
+                    output_shape=self._extended(node.meta['val'].shape),
                     activation_function=Linear(),
                 )
                 for i in range(len(node.args)):
@@ -290,13 +296,15 @@ class ShapeAwareVisitor(FXGraphVisitor):
             else:
                 logging.info(f"Add layer bypassed: {node.args[0].name}")
         elif operator in ("cat", "concat", "concatenate"):
+            rank = len(node.meta['val'].shape)
+            axis = node.args[1] if len(node.args) > 1 else 0
             this_layer = Concatenate(
                     original_name=node.name,
                     idx=self.idx,
                     size=node.meta['val'].numel(),
-                    axis=node.args[1],
-                    input_shapes=[self.layerdic[node.args[0][i].name][1] for i in range(len(node.args[0]))],
-                    output_shape=node.meta['val'].shape,
+                    axis=axis % rank + 4 - rank,
+                    input_shapes=[self._extended(self.layerdic[node.args[0][i].name][1]) for i in range(len(node.args[0]))],
+                    output_shape=self._extended(node.meta['val'].shape),
                     activation_function=Linear(),
                 )
             for i in range(len(node.args[0])):
-- 
2.43.0


From 81ea34369f404b18d5f095135dfc491b9404c6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:53 +0000
Subject: [PATCH 074/115] fix: a PyTorch clamp with a single bound is imported

---
 src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
index e7feef1..8bd6ba3 100644
--- a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
+++ b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
@@ -201,9 +201,10 @@ class ShapeAwareVisitor(FXGraphVisitor):
         elif operator == "relu":
             self._activate(node, ReLu())
         elif operator in ("clamp", "clip"):
+            bounds = [*node.args[1:], None, None][:2]
             self._activate(node, Clip(
-                max_value=node.args[2],
-                min_value=node.args[1]
+                max_value=bounds[1] if bounds[1] is not None else float("inf"),
+                min_value=bounds[0] if bounds[0] is not None else float("-inf"),
             ))
         elif operator == "conv2d":
             #first call to conv2d is expected to decide memory layout format based on its input tensor
-- 
2.43.0


From 1b04051b3ba7e108f178bf563347f0d686e6d23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:37 +0000
Subject: [PATCH 075/115] fix: a contiguous PyTorch input of one channel is in
 the channels first layout

---
 src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
index 8bd6ba3..c477be6 100644
--- a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
+++ b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
@@ -125,7 +125,8 @@ class ShapeAwareVisitor(FXGraphVisitor):
             idx=self.idx,
             size=node.meta['val'].numel(),
             input_shape=node.meta['val'].shape,
-            data_format="channels_last" if node.meta['val'].is_contiguous(memory_format=torch.channels_last) else "channels_first",
+            # with one channel or pixels of one element, both layouts are the same
+            data_format="channels_last" if not node.meta['val'].is_contiguous() and node.meta['val'].is_contiguous(memory_format=torch.channels_last) else "channels_first",
         )
         self.data_format = this_layer.data_format
         logging.info(f"[LAYOUT] : {self.data_format}")
-- 
2.43.0


From 7b678bf24eb90eb369608bb351376e1fa373de8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:08 +0000
Subject: [PATCH 076/115] fix: a PyTorch program in double precision is
 imported in double precision

---
 .../importers/PYTORCH_importer/parse_pytorch.py   | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
index c477be6..14003a8 100644
--- a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
+++ b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
@@ -65,6 +65,12 @@ class FXGraphVisitor:
 
 
 
+# Data types of the generated code
+DATA_TYPES = {
+    torch.float32: ("float", np.float32),
+    torch.float64: ("double", np.float64),
+}
+
 # 2. Concrete Visitor: ShapeAwareVisitor
 class ShapeAwareVisitor(FXGraphVisitor):
     """
@@ -129,6 +135,9 @@ class ShapeAwareVisitor(FXGraphVisitor):
             data_format="channels_last" if not node.meta['val'].is_contiguous() and node.meta['val'].is_contiguous(memory_format=torch.channels_last) else "channels_first",
         )
         self.data_format = this_layer.data_format
+        if node.meta['val'].dtype not in DATA_TYPES:
+            raise TypeError(f"Error: inputs of type {node.meta['val'].dtype} not supported\n")
+        self.data_type, self.data_type_py = DATA_TYPES[node.meta['val'].dtype]
         logging.info(f"[LAYOUT] : {self.data_format}")
         self.layerdic[node.name] = (this_layer, node.meta['val'].shape)
         self.idx+=1
@@ -258,8 +267,8 @@ class ShapeAwareVisitor(FXGraphVisitor):
                 conv_b = torch.from_numpy(previous_layer.biases)
                 conv_w = conv_w * (bn_w * bn_var_rsqrt).reshape([-1] + [1] * (len(conv_w.shape) - 1))
                 conv_b = (conv_b - bn_rm) * bn_var_rsqrt * bn_w + bn_b
-                previous_layer.weights = conv_w.numpy().astype(np.float32)
-                previous_layer.biases = conv_b.numpy().astype(np.float32)
+                previous_layer.weights = conv_w.numpy()
+                previous_layer.biases = conv_b.numpy()
             else:
                 this_layer = BatchNormalization(
                     original_name=node.name,
@@ -387,4 +396,4 @@ def load_pytorch(program : ExportedProgram):
     layers, max_road, dict_cst = graph_interpretor.tri_topo([l[0] for l in visitor.layerdic.values()])
     layers = [x.find_output_str(dict_cst) for x in layers]
     print("Finished model initialization.")    
-    return layers, "float", np.float32, visitor.data_format,max_road, dict_cst
\ No newline at end of file
+    return layers, visitor.data_type, visitor.data_type_py, visitor.data_format,max_road, dict_cst
\ No newline at end of file
-- 
2.43.0


From 25cdc15969e7b855024cb5cd212c77512c1de6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:23 +0000
Subject: [PATCH 077/115] fix: a JSON model is given its input layer

---
 src/acetone_nnet/importers/JSON_importer/parser_JSON.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
index 378d7e6..43cac01 100644
--- a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
+++ b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
@@ -113,10 +113,11 @@ def load_json(
     layers = []
 
     l_temp = InputLayer(
-        0,
-        model["config"]["layers"][0]["config"]["size"],
-        model["config"]["layers"][0]["config"]["input_shape"],
-        data_format,
+        original_name=model["config"]["layers"][0]["config"]["name"],
+        idx=0,
+        size=model["config"]["layers"][0]["config"]["size"],
+        input_shape=model["config"]["layers"][0]["config"]["input_shape"],
+        data_format=data_format,
     )
 
     layers.append(l_temp)
-- 
2.43.0


From f8f7c5d4972c376b82544732cc5980f7d1d7772d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:23 +0000
Subject: [PATCH 078/115] fix: the weights of a JSON convolution are read in
 their order

---
 src/acetone_nnet/importers/JSON_importer/parser_JSON.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
index 43cac01..d5a0ad5 100644
--- a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
+++ b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
@@ -162,7 +162,8 @@ def load_json(
                 nb_filters=layer["config"]["filters"],
                 input_shape=layer["config"]["input_shape"],
                 output_shape=layer["config"]["output_shape"],
-                weights=np.array(data_type_py(layer["weights"])),
+                # reorder weights from [C,H,W,F] into [F,C,H,W]
+                weights=np.moveaxis(data_type_py(layer["weights"]), -1, 0),
                 biases=data_type_py(layer["biases"]),
                 activation_function=create_actv_function_obj(
                     layer["config"]["activation"],
-- 
2.43.0


From cab051cd2e96d2a3266211ce764a8b3b3fcc7373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:23 +0000
Subject: [PATCH 079/115] fix: a JSON batch normalization becomes a layer

---
 src/acetone_nnet/importers/JSON_importer/parser_JSON.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
index d5a0ad5..3eb6993 100644
--- a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
+++ b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
@@ -304,7 +304,7 @@ def load_json(
             )
 
         elif layer["class_name"] == "BatchNormalization":
-            BatchNormalization(
+            current_layer = BatchNormalization(
                 original_name=layer["config"]["name"],
                 idx=layer["config"]["idx"],
                 size=layer["config"]["size"],
-- 
2.43.0


From f356cf30c9d4331e07071011ad90bc69c60a45a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:23 +0000
Subject: [PATCH 080/115] fix: the layers of a JSON model are linked after a
 softmax or a dropout

---
 .../importers/JSON_importer/parser_JSON.py    | 33 ++++++++++---------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
index 3eb6993..a4e17c5 100644
--- a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
+++ b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
@@ -122,12 +122,13 @@ def load_json(
 
     layers.append(l_temp)
 
-    nb_softmax_layers = 0
+    # layer that computes the output of each layer of the model
+    sources = [l_temp]
 
-    for idx, layer in list(islice(enumerate(model["config"]["layers"]), 1, None)):
+    for layer in islice(model["config"]["layers"], 1, None):
         add_softmax_layer = False
 
-        idx += nb_softmax_layers
+        idx = len(layers)
 
         if (
             "activation" in layer["config"]
@@ -208,7 +209,7 @@ def load_json(
         elif layer["class_name"] == "Add":
             current_layer = Add(
                 original_name=layer["config"]["name"],
-                idx=layer["config"]["idx"],
+                idx=idx,
                 size=layer["config"]["size"],
                 input_shapes=layer["config"]["input_shape"],
                 output_shape=layer["config"]["output_shape"],
@@ -218,7 +219,7 @@ def load_json(
         elif layer["class_name"] == "Multiply":
             current_layer = Multiply(
                 original_name=layer["config"]["name"],
-                idx=layer["config"]["idx"],
+                idx=idx,
                 size=layer["config"]["size"],
                 input_shapes=layer["config"]["input_shape"],
                 output_shape=layer["config"]["output_shape"],
@@ -228,7 +229,7 @@ def load_json(
         elif layer["class_name"] == "Subtract":
             current_layer = Subtract(
                 original_name=layer["config"]["name"],
-                idx=layer["config"]["idx"],
+                idx=idx,
                 size=layer["config"]["size"],
                 input_shapes=layer["config"]["input_shape"],
                 output_shape=layer["config"]["output_shape"],
@@ -241,7 +242,7 @@ def load_json(
                 axis = 1 if axis == 3 else axis + 1
             current_layer = Concatenate(
                 original_name=layer["config"]["name"],
-                idx=layer["config"]["idx"],
+                idx=idx,
                 size=layer["config"]["size"],
                 axis=axis,
                 input_shapes=layer["config"]["input_shape"],
@@ -252,7 +253,7 @@ def load_json(
         elif layer["class_name"] == "Maximum":
             current_layer = Maximum(
                 original_name=layer["config"]["name"],
-                idx=layer["config"]["idx"],
+                idx=idx,
                 size=layer["config"]["size"],
                 input_shapes=layer["config"]["input_shape"],
                 output_shape=layer["config"]["output_shape"],
@@ -262,7 +263,7 @@ def load_json(
         elif layer["class_name"] == "Minimum":
             current_layer = Minimum(
                 original_name=layer["config"]["name"],
-                idx=layer["config"]["idx"],
+                idx=idx,
                 size=layer["config"]["size"],
                 input_shapes=layer["config"]["input_shape"],
                 output_shape=layer["config"]["output_shape"],
@@ -272,7 +273,7 @@ def load_json(
         elif layer["class_name"] == "Average":
             current_layer = Average(
                 original_name=layer["config"]["name"],
-                idx=layer["config"]["idx"],
+                idx=idx,
                 size=layer["config"]["size"],
                 input_shapes=layer["config"]["input_shape"],
                 output_shape=layer["config"]["output_shape"],
@@ -294,7 +295,7 @@ def load_json(
 
             current_layer = ConstantPad(
                 original_name=layer["config"]["name"],
-                idx=layer["config"]["idx"],
+                idx=idx,
                 size=layer["config"]["size"],
                 pads=pads,
                 constant_value=0,
@@ -306,7 +307,7 @@ def load_json(
         elif layer["class_name"] == "BatchNormalization":
             current_layer = BatchNormalization(
                 original_name=layer["config"]["name"],
-                idx=layer["config"]["idx"],
+                idx=idx,
                 size=layer["config"]["size"],
                 input_shape=layer["config"]["input_shape"],
                 epsilon=layer["config"]["epsilon"],
@@ -322,21 +323,21 @@ def load_json(
             or "Dropout" in layer["class_name"]
             or layer["class_name"] == "Reshape"
         ):
+            sources.append(sources[layer["config"]["prev_layer_idx"][0]])
             continue
 
         else:
             raise TypeError("Error: layer" + layer["class_name"] + " not supported\n")
 
         for i in layer["config"]["prev_layer_idx"]:
-            current_layer.previous_layer.append(layers[i])
-            layers[i].next_layer.append(current_layer)
+            current_layer.previous_layer.append(sources[i])
+            sources[i].next_layer.append(current_layer)
 
         l_temp = current_layer
         layers.append(current_layer)
 
         # Separated method to generate softmax
         if add_softmax_layer:
-            nb_softmax_layers += 1
             current_layer = Softmax(
                 original_name=f"Softmax_{idx+1}",
                 idx=idx + 1,
@@ -349,6 +350,8 @@ def load_json(
             l_temp = current_layer
             layers.append(current_layer)
 
+        sources.append(current_layer)
+
     layers, max_road, dict_cst = graph_interpretor.tri_topo(layers)
     layers = [x.find_output_str(dict_cst) for x in layers]
     print("Finished model initialization.")
-- 
2.43.0


From 313bb675c4f51cb321f16c120865c47470a2ee69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:23 +0000
Subject: [PATCH 081/115] fix: the padding of a JSON model given as a number
 pads the image only

---
 src/acetone_nnet/importers/JSON_importer/parser_JSON.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
index a4e17c5..3110670 100644
--- a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
+++ b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
@@ -283,7 +283,7 @@ def load_json(
         elif layer["class_name"] == "ZeroPadding2D":
             pads = layer["config"]["padding"]
             if type(pads) is int:
-                pads = [pads for i in range(8)]
+                pads = [0, 0, pads, pads, 0, 0, pads, pads]
             else:
                 if type(pads[0]) is int:
                     pad_top, pad_bottom = pads[0], pads[0]
-- 
2.43.0


From e37d062b9bf1bcfebce884ee734b91bb34ce40c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:47 +0000
Subject: [PATCH 082/115] fix: the negative axis of a JSON concatenation is
 understood

---
 src/acetone_nnet/importers/JSON_importer/parser_JSON.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
index 3110670..ba3c89a 100644
--- a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
+++ b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
@@ -237,7 +237,7 @@ def load_json(
             )
 
         elif layer["class_name"] == "Concatenate":
-            axis = layer["config"]["axis"]
+            axis = layer["config"]["axis"] % len(layer["config"]["output_shape"])
             if data_format == "channels_last":
                 axis = 1 if axis == 3 else axis + 1
             current_layer = Concatenate(
-- 
2.43.0


From c8350fd058663fe2cae89bf113eabfb4aa2829b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:47 +0000
Subject: [PATCH 083/115] fix: a JSON softmax on an image is applied along the
 axis it is meant for

---
 src/acetone_nnet/importers/JSON_importer/parser_JSON.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
index ba3c89a..671be3d 100644
--- a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
+++ b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
@@ -338,12 +338,16 @@ def load_json(
 
         # Separated method to generate softmax
         if add_softmax_layer:
+            # along the last axis of the model
+            axis = None
+            if len(layer["config"]["output_shape"]) == 4:
+                axis = 1 if data_format == "channels_last" else 3
             current_layer = Softmax(
                 original_name=f"Softmax_{idx+1}",
                 idx=idx + 1,
                 size=l_temp.size,
                 output_shape=layer["config"]["output_shape"],
-                axis=None,
+                axis=axis,
             )
             l_temp.next_layer.append(current_layer)
             current_layer.previous_layer.append(l_temp)
-- 
2.43.0


From 5e6a5ff458406c283552f94fceffa67d5466c453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:47 +0000
Subject: [PATCH 084/115] fix: strides, dilations and windows of a JSON model
 that differ between the axes are refused

---
 .../importers/JSON_importer/parser_JSON.py    | 21 +++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
index 671be3d..c6e03c7 100644
--- a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
+++ b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
@@ -88,6 +88,15 @@ def create_resize_obj(
     raise ValueError("Error: resize mode " + mode + " not implemented")
 
 
+def uniform(layer: dict, key: str) -> int:
+    """Return a parameter of a layer, which must be the same along both axes."""
+    values = layer["config"][key]
+    if any(v != values[0] for v in values):
+        msg = f"Error: {key} of {layer['config']['name']} differs between the axes"
+        raise ValueError(msg)
+    return values[0]
+
+
 def load_json(
     file_to_parse: str | Path,
 ) -> (list[Layer], str, type, str, int, dict[int, int]):
@@ -156,10 +165,10 @@ def load_json(
                 idx=idx,
                 size=layer["config"]["size"],
                 padding=layer["config"]["padding"],
-                strides=layer["config"]["strides"][0],
+                strides=uniform(layer, "strides"),
                 kernel_h=layer["config"]["kernel_size"][0],
                 kernel_w=layer["config"]["kernel_size"][1],
-                dilation_rate=layer["config"]["dilation_rate"][0],
+                dilation_rate=uniform(layer, "dilation_rate"),
                 nb_filters=layer["config"]["filters"],
                 input_shape=layer["config"]["input_shape"],
                 output_shape=layer["config"]["output_shape"],
@@ -177,8 +186,8 @@ def load_json(
                 idx=idx,
                 size=layer["config"]["size"],
                 padding=layer["config"]["padding"],
-                strides=layer["config"]["strides"][0],
-                pool_size=layer["config"]["pool_size"][0],
+                strides=uniform(layer, "strides"),
+                pool_size=uniform(layer, "pool_size"),
                 input_shape=layer["config"]["input_shape"],
                 output_shape=layer["config"]["output_shape"],
                 activation_function=Linear(),
@@ -190,8 +199,8 @@ def load_json(
                 idx=idx,
                 size=layer["config"]["size"],
                 padding=layer["config"]["padding"],
-                strides=layer["config"]["strides"][0],
-                pool_size=layer["config"]["pool_size"][0],
+                strides=uniform(layer, "strides"),
+                pool_size=uniform(layer, "pool_size"),
                 input_shape=layer["config"]["input_shape"],
                 output_shape=layer["config"]["output_shape"],
                 activation_function=Linear(),
-- 
2.43.0


From 5dd5445efdf1957e39e3d8464ca528829547b1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:47 +0000
Subject: [PATCH 085/115] fix: a JSON fully connected layer applied to the rows
 of a tensor is refused

---
 src/acetone_nnet/importers/JSON_importer/parser_JSON.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
index c6e03c7..0128161 100644
--- a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
+++ b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
@@ -150,7 +150,7 @@ def load_json(
             current_layer = Dense(
                 original_name=layer["config"]["name"],
                 idx=idx,
-                size=layer["config"]["units"],
+                size=layer["config"]["size"],
                 weights=np.array(data_type_py(layer["weights"])),
                 biases=data_type_py(layer["biases"]),
                 activation_function=create_actv_function_obj(
-- 
2.43.0


From 594252fee60923ddb282e2b345cf8cf29ef15f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:47 +0000
Subject: [PATCH 086/115] fix: JSON layers that change or reorder values are no
 longer skipped

---
 .../importers/JSON_importer/parser_JSON.py         | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
index 0128161..467bfcd 100644
--- a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
+++ b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
@@ -97,6 +97,14 @@ def uniform(layer: dict, key: str) -> int:
     return values[0]
 
 
+def keeps_order(layer: dict, data_format: str) -> bool:
+    """Say whether a reshape keeps the order of the values, channels first."""
+    return data_format == "channels_first" or all(
+        len(shape) < 4 or 1 in (shape[1], shape[2] * shape[3])
+        for shape in (layer["config"]["input_shape"], layer["config"]["output_shape"])
+    )
+
+
 def load_json(
     file_to_parse: str | Path,
 ) -> (list[Layer], str, type, str, int, dict[int, int]):
@@ -327,10 +335,8 @@ def load_json(
                 activation_function=Linear(),
             )
 
-        elif (
-            "Normalization" in layer["class_name"]
-            or "Dropout" in layer["class_name"]
-            or layer["class_name"] == "Reshape"
+        elif "Dropout" in layer["class_name"] or (
+            layer["class_name"] == "Reshape" and keeps_order(layer, data_format)
         ):
             sources.append(sources[layer["config"]["prev_layer_idx"][0]])
             continue
-- 
2.43.0


From 4de2aaa0f2f85ea12f811b5b69e124bed526316e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:47 +0000
Subject: [PATCH 087/115] fix: a JSON batch normalization of another axis than
 the channels is refused

---
 src/acetone_nnet/importers/JSON_importer/parser_JSON.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
index 467bfcd..111bc86 100644
--- a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
+++ b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
@@ -322,6 +322,11 @@ def load_json(
             )
 
         elif layer["class_name"] == "BatchNormalization":
+            rank = len(layer["config"]["output_shape"])
+            channels = rank - 1 if data_format == "channels_last" else 1
+            if any(axis % rank != channels for axis in np.ravel(layer["config"]["axis"])):
+                msg = f"Error: axis of {layer['config']['name']} not supported"
+                raise ValueError(msg)
             current_layer = BatchNormalization(
                 original_name=layer["config"]["name"],
                 idx=idx,
-- 
2.43.0


From f4e9f75ae14ea67bb4797058108c3ef8233c09b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:12 +0000
Subject: [PATCH 088/115] fix: the merging layers of a JSON model are imported

The layers expect the shapes of their operands as an array, and refused the lists of the file.
---
 .../importers/JSON_importer/parser_JSON.py             | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
index 111bc86..fe242bb 100644
--- a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
+++ b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
@@ -238,7 +238,7 @@ def load_json(
                 original_name=layer["config"]["name"],
                 idx=idx,
                 size=layer["config"]["size"],
-                input_shapes=layer["config"]["input_shape"],
+                input_shapes=np.array(layer["config"]["input_shape"]),
                 output_shape=layer["config"]["output_shape"],
                 activation_function=Linear(),
             )
@@ -248,7 +248,7 @@ def load_json(
                 original_name=layer["config"]["name"],
                 idx=idx,
                 size=layer["config"]["size"],
-                input_shapes=layer["config"]["input_shape"],
+                input_shapes=np.array(layer["config"]["input_shape"]),
                 output_shape=layer["config"]["output_shape"],
                 activation_function=Linear(),
             )
@@ -272,7 +272,7 @@ def load_json(
                 original_name=layer["config"]["name"],
                 idx=idx,
                 size=layer["config"]["size"],
-                input_shapes=layer["config"]["input_shape"],
+                input_shapes=np.array(layer["config"]["input_shape"]),
                 output_shape=layer["config"]["output_shape"],
                 activation_function=Linear(),
             )
@@ -282,7 +282,7 @@ def load_json(
                 original_name=layer["config"]["name"],
                 idx=idx,
                 size=layer["config"]["size"],
-                input_shapes=layer["config"]["input_shape"],
+                input_shapes=np.array(layer["config"]["input_shape"]),
                 output_shape=layer["config"]["output_shape"],
                 activation_function=Linear(),
             )
@@ -292,7 +292,7 @@ def load_json(
                 original_name=layer["config"]["name"],
                 idx=idx,
                 size=layer["config"]["size"],
-                input_shapes=layer["config"]["input_shape"],
+                input_shapes=np.array(layer["config"]["input_shape"]),
                 output_shape=layer["config"]["output_shape"],
                 activation_function=Linear(),
             )
-- 
2.43.0


From bb33890f38522d15f627bd7e2c3cd9c0e2cb0094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:12 +0000
Subject: [PATCH 089/115] fix: a Flatten layer for channels first data puts the
 channels last

Keras moves the channels of such a layer to the end before flattening; the
JSON importer kept them first.
---
 src/acetone_nnet/importers/JSON_importer/parser_JSON.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
index fe242bb..45e5789 100644
--- a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
+++ b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
@@ -215,12 +215,17 @@ def load_json(
             )
 
         elif layer["class_name"] == "Flatten":
+            # a Flatten layer for channels first data puts the channels last
+            layer_format = layer["config"].get("data_format", "channels_last")
+            if data_format == "channels_last" != layer_format:
+                msg = f"Error: data format of {layer['config']['name']} not supported"
+                raise ValueError(msg)
             current_layer = Flatten(
                 original_name=layer["config"]["name"],
                 idx=idx,
                 size=layer["config"]["size"],
                 input_shape=layer["config"]["input_shape"],
-                data_format=data_format,
+                data_format="channels_last" if layer_format == "channels_first" else data_format,
             )
 
         elif layer["class_name"] == "Add":
-- 
2.43.0


From 0b0fa1b6e141357e9bf7f2be8e895783f6d56129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:24 +0000
Subject: [PATCH 090/115] fix: Softmax along an axis of one element is not one
 over all elements

A softmax of a tensor with a single axis longer than one was taken along
that axis, whichever axis it was given.
---
 src/acetone_nnet/generator/layers/softmax/Softmax.py        | 4 +++-
 src/acetone_nnet/generator/layers/softmax/SoftmaxDefault.py | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/softmax/Softmax.py b/src/acetone_nnet/generator/layers/softmax/Softmax.py
index abc3b91..9003e70 100644
--- a/src/acetone_nnet/generator/layers/softmax/Softmax.py
+++ b/src/acetone_nnet/generator/layers/softmax/Softmax.py
@@ -47,7 +47,9 @@ class Softmax(Layer):
             self.original_name = original_name
         self.axis = axis
 
-        if self.size in output_shape:
+        if self.size in output_shape and (
+            axis is None or output_shape[axis] == self.size
+        ):
             self.one_dimension = True
         else:
             self.output_channels = output_shape[1]
diff --git a/src/acetone_nnet/generator/layers/softmax/SoftmaxDefault.py b/src/acetone_nnet/generator/layers/softmax/SoftmaxDefault.py
index c1f70f5..6217741 100644
--- a/src/acetone_nnet/generator/layers/softmax/SoftmaxDefault.py
+++ b/src/acetone_nnet/generator/layers/softmax/SoftmaxDefault.py
@@ -95,7 +95,8 @@ def softmax_default_implementation(
 ) -> SoftmaxDefault:
     """Create a Softmax_Default layer using the attributes of old_layer."""
     if old_layer.one_dimension:
-        output_shape = [1, 1, 1, old_layer.size]
+        output_shape = [1, 1, 1, 1]
+        output_shape[3 if old_layer.axis is None else old_layer.axis] = old_layer.size
     else:
         output_shape = [1, old_layer.output_channels, old_layer.output_height, old_layer.output_width]
     return SoftmaxDefault(
-- 
2.43.0


From 1d76f2625b69efc29abb7a12f9c6acc3e1378cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:24 +0000
Subject: [PATCH 091/115] fix: the reference output of Softmax has the axes of
 the other layers

It kept the batch axis, and the output of a channels last model could not
be written.
---
 src/acetone_nnet/generator/layers/softmax/Softmax.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/acetone_nnet/generator/layers/softmax/Softmax.py b/src/acetone_nnet/generator/layers/softmax/Softmax.py
index 9003e70..1563c26 100644
--- a/src/acetone_nnet/generator/layers/softmax/Softmax.py
+++ b/src/acetone_nnet/generator/layers/softmax/Softmax.py
@@ -111,4 +111,6 @@ class Softmax(Layer):
 
         exp = np.exp(input_array, dtype=float)
         output = exp / np.sum(exp, keepdims=True, axis=self.axis)
+        if not self.one_dimension:
+            output = output[0]
         return self.activation_function.compute(output)
\ No newline at end of file
-- 
2.43.0


From a0b5f1cc053f48b864a5a1fa02813739cbc39f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:13 +0000
Subject: [PATCH 092/115] fix: the output of a network that ends with an
 activation is in the layout of its input

---
 src/acetone_nnet/generator/neural_network.py | 31 +++++++++++++-------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index 52a3386..5958ca6 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -46,6 +46,7 @@ else:
 from typing_extensions import Self
 
 from acetone_nnet import templates
+from acetone_nnet.ir import Layer
 from acetone_nnet.importers.parser import parser
 from acetone_nnet.pattern_matching.PatternMatcher import pattern_matcher
 from acetone_nnet.quantize import qform
@@ -53,6 +54,7 @@ from acetone_nnet.quantize.activation import QuantizeShiftActivation
 from acetone_nnet.templates.template_makefile import TemplateMakefile
 from acetone_nnet.versioning.versioning import versioning
 from .layers import (
+    ActivationLayer,
     InputLayer,
     AveragePooling2D,
     BatchNormalization,
@@ -560,7 +562,7 @@ class CodeGenerator(ABC):
                             # Add the inference result of the layer to debug_output
                             debug_output.append(layer_output)
                             if (self.data_format == "channels_last") and hasattr(
-                                layer,
+                                self.shaped(layer),
                                 "output_channels",
                             ):
                                 debug_output[-1] = np.transpose(
@@ -575,7 +577,7 @@ class CodeGenerator(ABC):
 
                 # Write results in text files to compare prediction.
                 if (self.data_format == "channels_last") and hasattr(
-                    layer,
+                    self.shaped(layer),
                     "output_channels",
                 ):
                     nn_output = np.transpose(nn_output, (1, 2, 0))
@@ -593,6 +595,13 @@ class CodeGenerator(ABC):
             return debug_output, targets
         return nn_output
 
+    @staticmethod
+    def shaped(layer: Layer) -> Layer:
+        """Return the layer that gives its extents to the output of a layer: an activation keeps those of its operand."""
+        while isinstance(layer, ActivationLayer):
+            layer = layer.previous_layer[0]
+        return layer
+
     def data2c(self, d):
         if np.issubdtype(self.data_type_py, np.integer):
             return str(d)
@@ -916,13 +925,14 @@ class CodeGenerator(ABC):
                 layer_hash["name"] = layer.name
                 layer_hash["idx"] = layer.idx
                 layer_hash["to_transpose"] = 0
+                shaped = self.shaped(layer)
                 if (self.data_format == "channels_last") and (
-                    hasattr(layer, "output_channels")
+                    hasattr(shaped, "output_channels")
                 ):
                     layer_hash["to_transpose"] = 1
-                    layer_hash["channels"] = layer.output_channels
-                    layer_hash["height"] = layer.output_height
-                    layer_hash["width"] = layer.output_width
+                    layer_hash["channels"] = shaped.output_channels
+                    layer_hash["height"] = shaped.output_height
+                    layer_hash["width"] = shaped.output_width
 
             if self.debug_mode in ["time"]:
                 layer_hash["time"] = True
@@ -933,10 +943,11 @@ class CodeGenerator(ABC):
 
         # Generate code to output graph data
         output_hash = {"path": self.layers[-1].path}
-        if hasattr(self.layers[-1], "output_channels"):
-            output_hash["output_height"] = self.layers[-1].output_height
-            output_hash["output_width"] = self.layers[-1].output_width
-            output_hash["output_channels"] = self.layers[-1].output_channels
+        shaped = self.shaped(self.layers[-1])
+        if hasattr(shaped, "output_channels"):
+            output_hash["output_height"] = shaped.output_height
+            output_hash["output_width"] = shaped.output_width
+            output_hash["output_channels"] = shaped.output_channels
             if (self.data_format == "channels_first") and (self.gen_data_format=="channels_last"):
                 output_hash["channels_last_to_first"] = True
             elif (self.data_format == "channels_last") and (self.gen_data_format=="channels_first"):
-- 
2.43.0


From 5ac3c10f2eab9e0dba4c4c5a97005ca874ce20d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:38 +0000
Subject: [PATCH 093/115] fix: the generated inference leaves the input of its
 caller as it is

---
 .../normalization/template_pre_processing.c.tpl        | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/acetone_nnet/templates/normalization/template_pre_processing.c.tpl b/src/acetone_nnet/templates/normalization/template_pre_processing.c.tpl
index 12419d3..2eea739 100644
--- a/src/acetone_nnet/templates/normalization/template_pre_processing.c.tpl
+++ b/src/acetone_nnet/templates/normalization/template_pre_processing.c.tpl
@@ -1,18 +1,20 @@
-    // pre-processing for the normalization
+    // pre-processing for the normalization, the input of the caller is left as it is
+    float normalized_input[{{input_size}}];
     for (i = 0; i < {{input_size}}; ++i) 
     { 
         if ( nn_input[i] < input_min[i]){
-            nn_input[i] = (input_min[i]-input_mean[i])/input_range[i];
+            normalized_input[i] = (input_min[i]-input_mean[i])/input_range[i];
         }
         else
         {
             if (nn_input[i] > input_max[i]){
-                nn_input[i] = (input_max[i]-input_mean[i])/input_range[i];
+                normalized_input[i] = (input_max[i]-input_mean[i])/input_range[i];
             }
             else
             {
-                nn_input[i] = (nn_input[i]-input_mean[i])/input_range[i];
+                normalized_input[i] = (nn_input[i]-input_mean[i])/input_range[i];
             }
         }
     }
+    nn_input = normalized_input;
     
\ No newline at end of file
-- 
2.43.0


From 7af9df5ad3dacd7bee5b2dedc3404e11a8957e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:38 +0000
Subject: [PATCH 094/115] fix: the debug file is closed at the end of the
 inference

---
 src/acetone_nnet/templates/template_source_file.c.tpl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/acetone_nnet/templates/template_source_file.c.tpl b/src/acetone_nnet/templates/template_source_file.c.tpl
index 963a695..e64281d 100644
--- a/src/acetone_nnet/templates/template_source_file.c.tpl
+++ b/src/acetone_nnet/templates/template_source_file.c.tpl
@@ -130,5 +130,8 @@ int inference(inference_t *ctx, {{data_type}} prediction[{{output_size}}], {{dat
 
 
 {{{post_processing}}}
+{{#debug_file}}
+    fclose(fp);
+{{/debug_file}}
     return 0;
 }
\ No newline at end of file
-- 
2.43.0


From ac6075a2ccab6e221a83411309d9b3bd9061047c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:25 +0000
Subject: [PATCH 095/115] fix: the indices and repeats of exported ONNX nodes
 are integers

---
 .../exporters/ONNX_exporter/acetone_to_onnx_layer.py        | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
index ad8e864..210f8b0 100644
--- a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
+++ b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
@@ -297,7 +297,7 @@ def export_gather(
     indices = create_initializer_tensor(
         name=indices_name,
         tensor_array=gather_layer.indices,
-        data_type=tensor_dtype,
+        data_type=onnx.TensorProto.INT64,
     )
     initializer = [indices]
 
@@ -324,7 +324,7 @@ def export_gather_elements(
     indices = create_initializer_tensor(
         name=indices_name,
         tensor_array=gather_elements_layer.indices,
-        data_type=tensor_dtype,
+        data_type=onnx.TensorProto.INT64,
     )
     initializer = [indices]
 
@@ -570,7 +570,7 @@ def export_tile(
     repeat = create_initializer_tensor(
         name=repeat_name,
         tensor_array=np.array(tile_layer.repeats),
-        data_type=tensor_dtype,
+        data_type=onnx.TensorProto.INT64,
     )
     initializer = [repeat]
 
-- 
2.43.0


From 6c1c9ae852508999cc89604ec04acdf396a6dae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:25 +0000
Subject: [PATCH 096/115] fix: the pads of exported convolutions and poolings
 are in the order of ONNX

---
 .../exporters/ONNX_exporter/acetone_to_onnx_layer.py          | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
index 210f8b0..467eb2f 100644
--- a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
+++ b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
@@ -209,7 +209,7 @@ def export_conv2d(
         inputs=inputs_name,
         outputs=[output_name],
         kernel_shape=(conv2d_layer.kernel_h, conv2d_layer.kernel_w),
-        pads=(conv2d_layer.pad_right, conv2d_layer.pad_left, conv2d_layer.pad_bottom, conv2d_layer.pad_top),
+        pads=(conv2d_layer.pad_top, conv2d_layer.pad_left, conv2d_layer.pad_bottom, conv2d_layer.pad_right),
         strides=(conv2d_layer.strides,conv2d_layer.strides),
         dilations=(conv2d_layer.dilation_rate, conv2d_layer.dilation_rate),
     )
@@ -424,7 +424,7 @@ def export_pool(
         outputs=[output_name],
         strides=(pool_layer.strides, pool_layer.strides),
         kernel_shape=(pool_layer.pool_size, pool_layer.pool_size),
-        pads=(pool_layer.pad_right, pool_layer.pad_left, pool_layer.pad_bottom, pool_layer.pad_top)
+        pads=(pool_layer.pad_top, pool_layer.pad_left, pool_layer.pad_bottom, pool_layer.pad_right)
     )
 
     return node, []
-- 
2.43.0


From 518bccd4d5bd4678f10e0a44c7e883328fef756b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:04 +0000
Subject: [PATCH 097/115] fix: the exported Softmax normalises along the axis
 of the layer

---
 .../exporters/ONNX_exporter/acetone_to_onnx_layer.py             | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
index 467eb2f..f996337 100644
--- a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
+++ b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
@@ -441,6 +441,7 @@ def export_softmax(
         op_type="Softmax",
         inputs=inputs_name,
         outputs=[output_name],
+        axis=-1 if softmax_layer.axis is None else softmax_layer.axis,
     )
 
     return node, []
-- 
2.43.0


From ca448b19b527f2b4bf534e59443acb2422bc8df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:04 +0000
Subject: [PATCH 098/115] fix: the scales of an exported Resize are single
 precision numbers

---
 .../exporters/ONNX_exporter/acetone_to_onnx_layer.py            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
index f996337..a4d3261 100644
--- a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
+++ b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
@@ -517,7 +517,7 @@ def export_resize(
     scale = create_initializer_tensor(
         name=scale_name,
         tensor_array=np.array(resize_layer.scale),
-        data_type=tensor_dtype,
+        data_type=onnx.TensorProto.FLOAT,
     )
     initializer = [scale]
 
-- 
2.43.0


From dbd99a6112977b21af344ec153c250f0ba130ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:04 +0000
Subject: [PATCH 099/115] fix: the Average layer is exported as a Mean

---
 .../exporters/ONNX_exporter/acetone_to_onnx_layer.py            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
index a4d3261..b76592e 100644
--- a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
+++ b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
@@ -144,7 +144,7 @@ def export_broadcast(
 ) -> tuple[onnx.NodeProto, list[onnx.TensorProto]]:
     """Export ACETONE broadcastable layer to an ONNX broadcastable layer (Add, Average, Divide, Maximum, Minimum, Multiply, Subtract)."""
     tensor_dtype = np_dtype_to_tensor_dtype(np.dtype(dtype_py.__name__))
-    op_type = broadcast_layer.name[:3]
+    op_type = "Mean" if broadcast_layer.name == "Average" else broadcast_layer.name[:3]
     initializer = []
 
     output_name, inputs_name = generate_input_output_name(broadcast_layer)
-- 
2.43.0


From a10d8c623184b5e53420fc3ac9bdde8ab72380be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:04 +0000
Subject: [PATCH 100/115] fix: the constant of an exported broadcast keeps its
 dimensions

---
 .../exporters/ONNX_exporter/acetone_to_onnx_layer.py          | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
index b76592e..6669a0d 100644
--- a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
+++ b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
@@ -153,7 +153,9 @@ def export_broadcast(
         inputs_name.append(constant_name)
 
         constant = create_initializer_tensor(
-            name=constant_name, tensor_array=np.squeeze(broadcast_layer.constant), data_type=tensor_dtype,
+            name=constant_name,
+            tensor_array=np.reshape(broadcast_layer.constant, (1, *broadcast_layer.input_shapes[-1][1:])),
+            data_type=tensor_dtype,
         )
         initializer.append(constant)
     elif len(inputs_name) == 1 and op_type in ["Add", "Sub", "Mul", "Div"]:
-- 
2.43.0


From c88cc74df4c6f84d67122658cdc9e93398ffe13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:04 +0000
Subject: [PATCH 101/115] fix: the slope and the bounds of activation layers
 are exported

---
 .../ONNX_exporter/acetone_to_onnx_layer.py    | 21 ++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
index 6669a0d..4ae4050 100644
--- a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
+++ b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
@@ -638,13 +638,32 @@ def export_activation(
         def silu(tensor: np.array) -> np.array:
             return tensor / (1 + np.exp(-tensor))
 
+    attributes = {}
+    initializer = []
+    if op_tye == "LeakyRelu":
+        attributes["alpha"] = activation_layer.activation_function.alpha
+    elif op_tye == "Clip":
+        bounds = {
+            "min": activation_layer.activation_function.min,
+            "max": activation_layer.activation_function.max,
+        }
+        for bound, value in bounds.items():
+            bound_name = f"{activation_layer.name}_{activation_layer.idx}_clip_{bound}"
+            inputs_name.append(bound_name)
+            initializer.append(create_initializer_tensor(
+                name=bound_name,
+                tensor_array=np.array(value),
+                data_type=tensor_dtype,
+            ))
+
     node = make_node(
         name=activation_layer.original_name,
         op_type=op_tye,
         inputs=inputs_name,
         outputs=[output_name],
+        **attributes,
     )
-    return node, []
+    return node, initializer
 
 ###### Dict of all the exporters ######
 list_exporters = {
-- 
2.43.0


From d4048edc62b85a0ef890d2e8e535ef9dbddc8241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:33 +0000
Subject: [PATCH 102/115] fix: the two operands of a MatMul are exported as its
 inputs

---
 .../ONNX_exporter/acetone_to_onnx_layer.py    | 22 +------------------
 1 file changed, 1 insertion(+), 21 deletions(-)

diff --git a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
index 4ae4050..835859c 100644
--- a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
+++ b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
@@ -376,18 +376,8 @@ def export_matmul(
 ) -> tuple[onnx.NodeProto, list[onnx.TensorProto]]:
     """Export ACETONE MatMul layer to an ONNX MatMul layer."""
     tensor_dtype = np_dtype_to_tensor_dtype(np.dtype(dtype_py.__name__))
-    initializer = []
 
     output_name, inputs_name = generate_input_output_name(matmul_layer)
-    weight_name = f"{matmul_layer.name}_{matmul_layer.idx}_weight"
-    if matmul_layer.side == 1:
-        temp = [weight_name]
-        temp.extend(inputs_name)
-        inputs_name = temp
-    elif matmul_layer.side == 0:
-        inputs_name.append(weight_name)
-    else:
-        pass
     node = make_node(
         name=matmul_layer.original_name,
         op_type="MatMul",
@@ -395,17 +385,7 @@ def export_matmul(
         outputs=[output_name],
     )
 
-    if matmul_layer.weights is not None:
-        weight_value = matmul_layer.weights
-        weight_value = np.reshape(weight_value, (weight_value.shape[-2],weight_value.shape[-1]))
-        weight = create_initializer_tensor(
-            name=weight_name,
-            tensor_array=weight_value,
-            data_type=tensor_dtype,
-        )
-        initializer.append(weight)
-
-    return node, initializer
+    return node, []
 
 def export_pool(
         pool_layer: Pooling2D,
-- 
2.43.0


From 4778081e844a84c18a62594235bb23716b01a341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:33 +0000
Subject: [PATCH 103/115] fix: the constants of a network are exported as
 initializers

---
 .../ONNX_exporter/acetone_to_onnx_layer.py          | 13 +++++++++++++
 .../exporters/ONNX_exporter/exporter_onnx.py        |  7 ++++++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
index 835859c..3d69bcd 100644
--- a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
+++ b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
@@ -33,6 +33,7 @@ from acetone_nnet.generator.layers import (
     BatchNormalization,
     Concatenate,
     ConstantPad,
+    ConstantLayer,
     Conv2D,
     Dense,
     Divide,
@@ -100,6 +101,18 @@ def generate_input_output_name(
 
 ###### Functions to export a Layer ######
 
+def export_constant(
+        constant_layer: ConstantLayer,
+        dtype_py:np.dtype,
+) -> onnx.TensorProto:
+    """Export ACETONE Constant layer to an ONNX initializer."""
+    return create_initializer_tensor(
+        name=f"{constant_layer.name}_{constant_layer.idx}",
+        tensor_array=np.asarray(constant_layer.constant),
+        data_type=np_dtype_to_tensor_dtype(np.dtype(dtype_py.__name__)),
+    )
+
+
 def export_batch_normalization(
         batch_normalization_layer: BatchNormalization,
         dtype_py:np.dtype,
diff --git a/src/acetone_nnet/exporters/ONNX_exporter/exporter_onnx.py b/src/acetone_nnet/exporters/ONNX_exporter/exporter_onnx.py
index da9975c..8e57ed0 100644
--- a/src/acetone_nnet/exporters/ONNX_exporter/exporter_onnx.py
+++ b/src/acetone_nnet/exporters/ONNX_exporter/exporter_onnx.py
@@ -23,10 +23,11 @@ import onnx
 from onnx import helper
 
 from acetone_nnet.generator.activation_functions import Linear
-from acetone_nnet.generator.layers import ActivationLayer
+from acetone_nnet.generator.layers import ActivationLayer, ConstantLayer
 from acetone_nnet.ir import Layer
 
 from .acetone_to_onnx_layer import (
+    export_constant,
     export_input,
     export_output,
     list_activation_exporters,
@@ -46,6 +47,10 @@ def onnx_exporter(
     outputs = []
 
     for layer in list_layer:
+        if isinstance(layer, ConstantLayer):
+            initializers.append(export_constant(layer, datatype_py))
+            continue
+
         if not layer.previous_layer:
             inputs.append(export_input(layer, datatype_py))
 
-- 
2.43.0


From 530d843916ed52b76d559c1b51b73c3500f482fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:39 +0000
Subject: [PATCH 104/115] fix: reduction axes given as an initializer are
 adjusted in a copy

---
 .../importers/ONNX_importer/create_layer.py            | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index ef96fcf..db302c2 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -829,7 +829,7 @@ def create_reduce_sum(
         if len(node.input) == is_axes:
             attributes["axes"] = onnx.numpy_helper.to_array(
                 look_for_initializer(node.input[1], model),
-            )
+            ).copy()
         else:
             attributes["axes"] = []
 
@@ -883,7 +883,7 @@ def create_reduce_max(
         if len(node.input) == is_axes:
             attributes["axes"] = onnx.numpy_helper.to_array(
                 look_for_initializer(node.input[1], model),
-            )
+            ).copy()
         else:
             attributes["axes"] = []
 
@@ -937,7 +937,7 @@ def create_reduce_min(
         if len(node.input) == is_axes:
             attributes["axes"] = onnx.numpy_helper.to_array(
                 look_for_initializer(node.input[1], model),
-            )
+            ).copy()
         else:
             attributes["axes"] = []
 
@@ -991,7 +991,7 @@ def create_reduce_mean(
         if len(node.input) == is_axes:
             attributes["axes"] = onnx.numpy_helper.to_array(
                 look_for_initializer(node.input[1], model),
-            )
+            ).copy()
         else:
             attributes["axes"] = []
 
@@ -1045,7 +1045,7 @@ def create_reduce_prod(
         if len(node.input) == is_axes:
             attributes["axes"] = onnx.numpy_helper.to_array(
                 look_for_initializer(node.input[1], model),
-            )
+            ).copy()
         else:
             attributes["axes"] = []
 
-- 
2.43.0


From 82b21190dac1de13064cbf1c6b09854b4945b2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:39 +0000
Subject: [PATCH 105/115] fix: padding axes given as an initializer are
 adjusted in a copy

---
 src/acetone_nnet/importers/ONNX_importer/create_layer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index db302c2..b3e3a14 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -485,7 +485,7 @@ def create_pad(
     if not initializers[2]:
         axes = []
     else:
-        axes = onnx.numpy_helper.to_array(initializers[2])
+        axes = onnx.numpy_helper.to_array(initializers[2]).copy()
         for i in range(len(axes)):
             axe = axes[i]
             if axe < 0:
-- 
2.43.0


From 125a26de599d3bdfa8084c33d4b0a6ac2ed7333d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:59 +0000
Subject: [PATCH 106/115] fix: negative gather indices are adjusted in a copy
 of the initializer

---
 src/acetone_nnet/importers/ONNX_importer/create_layer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index b3e3a14..c6bfff6 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -520,7 +520,7 @@ def create_gather(
     dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
-    indices = onnx.numpy_helper.to_array(look_for_initializer(node.input[1], model))
+    indices = onnx.numpy_helper.to_array(look_for_initializer(node.input[1], model)).copy()
     if "axis" not in attributes:
         attributes["axis"] = len(input_shape) - original_len_shape
     elif attributes["axis"] < 0:
@@ -559,7 +559,7 @@ def create_gather_elements(
     dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
-    indices = onnx.numpy_helper.to_array(look_for_initializer(node.input[1], model))
+    indices = onnx.numpy_helper.to_array(look_for_initializer(node.input[1], model)).copy()
     if "axis" not in attributes:
         attributes["axis"] = len(input_shape) - original_len_shape
     elif attributes["axis"] < 0:
-- 
2.43.0


From badf7e57dd9680e1771b86474bdc062540ea36ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:10 +0000
Subject: [PATCH 107/115] fix: a convolution is fused with its batch
 normalization in copies of its weights

---
 .../pattern_matching/patterns/FuseConvBatchNorm.py            | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/pattern_matching/patterns/FuseConvBatchNorm.py b/src/acetone_nnet/pattern_matching/patterns/FuseConvBatchNorm.py
index 1088ead..2057434 100644
--- a/src/acetone_nnet/pattern_matching/patterns/FuseConvBatchNorm.py
+++ b/src/acetone_nnet/pattern_matching/patterns/FuseConvBatchNorm.py
@@ -78,8 +78,8 @@ class FuseConvBatchNorm(Pattern):
         conv: Conv2D = layers[index - 1]
 
         # Retrieve the constant
-        weights: np.array = conv.weights
-        biases = conv.biases
+        weights: np.array = conv.weights.copy()
+        biases = conv.biases.copy()
 
         scale = batch_norm.scale
         bias = batch_norm.biases
-- 
2.43.0


From 4fd3a152ea0bd7ec9119fc93c2ae947c7c24d434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:19 +0000
Subject: [PATCH 108/115] fix: a Resize of all the dimensions is exported
 without axes

---
 .../exporters/ONNX_exporter/acetone_to_onnx_layer.py            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
index 3d69bcd..14b5f0b 100644
--- a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
+++ b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
@@ -499,7 +499,7 @@ def export_resize(
         op_type="Resize",
         inputs=inputs_name,
         outputs=[output_name],
-        axes=resize_layer.axes,
+        axes=list(resize_layer.axes) or None,
         coordinate_transformation_mode=resize_layer.coordinate_transformation_mode,
         cubic_coeff_a=resize_layer.cubic_coeff_a,
         exclude_outside=resize_layer.exclude_outside,
-- 
2.43.0


From 2d6fc7fe71614dc439eeb99cea9512f39f025ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:24 +0000
Subject: [PATCH 109/115] fix: the input of an exported model has the four
 dimensions its nodes count with

---
 .../exporters/ONNX_exporter/acetone_to_onnx_layer.py      | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
index 14b5f0b..ce040a2 100644
--- a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
+++ b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
@@ -898,11 +898,9 @@ def export_input(
 ) -> onnx.ValueInfoProto:
     """Export ACETONE Input layer to ONNX input value info."""
     tensor_dtype = np_dtype_to_tensor_dtype(np.dtype(datatype_py.__name__))
-    shape = getattr(input_layer,"input_shape", None)
-    if type(shape) is not None:
-        for i in range(len(shape)):
-            if shape[i] is None:
-                shape[i] = 1
+    shape = [1 if dim is None else int(dim) for dim in input_layer.input_shape]
+    # The layers count dimensions in tensors of four dimensions
+    shape = [1] * (4 - len(shape)) + shape
     return make_tensor_value_info(
         name=f"{input_layer.name}_{input_layer.idx}",
         elem_type=tensor_dtype,
-- 
2.43.0


From aecb20911ae4382c9ccce919d291980cb57e5e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:24 +0000
Subject: [PATCH 110/115] fix: an exported Gemm reads two dimensions and gives
 four

---
 .../ONNX_exporter/acetone_to_onnx_layer.py    | 33 +++++++++++++++----
 .../exporters/ONNX_exporter/exporter_onnx.py  |  2 +-
 2 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
index ce040a2..5321314 100644
--- a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
+++ b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
@@ -348,25 +348,39 @@ def export_gather_elements(
 def export_gemm(
     gemm_layer: Gemm,
         dtype_py:np.dtype,
-) -> tuple[onnx.NodeProto, list[onnx.TensorProto]]:
-    """Export ACETONE Gemm layer to an ONNX Gemm layer."""
+) -> tuple[list[onnx.NodeProto], list[onnx.TensorProto]]:
+    """Export ACETONE Gemm layer to an ONNX Gemm layer, between changes from and to four dimensions."""
     tensor_dtype = np_dtype_to_tensor_dtype(np.dtype(dtype_py.__name__))
 
     output_name, inputs_name = generate_input_output_name(gemm_layer)
     weight_name = f"{gemm_layer.name}_{gemm_layer.idx}_weight"
     bias_name = f"{gemm_layer.name}_{gemm_layer.idx}_bias"
-    inputs_name.extend([weight_name, bias_name])
+    flat_name = f"{gemm_layer.name}_{gemm_layer.idx}_flat"
+    product_name = f"{gemm_layer.name}_{gemm_layer.idx}_product"
+    axes_name = f"{gemm_layer.name}_{gemm_layer.idx}_axes"
 
+    flatten = make_node(
+        name=f"Flatten of node {gemm_layer.original_name}",
+        op_type="Flatten",
+        inputs=inputs_name,
+        outputs=[flat_name],
+    )
     node = make_node(
         name=gemm_layer.original_name,
         op_type="Gemm",
-        inputs=inputs_name,
-        outputs=[output_name],
+        inputs=[flat_name, weight_name, bias_name],
+        outputs=[product_name],
         alpha=1 if not gemm_layer.alpha else gemm_layer.alpha[0],
         beta=1 if not gemm_layer.beta else gemm_layer.beta[0],
         transA=gemm_layer.transpo[0],
         transB=gemm_layer.transpo[1],
     )
+    unsqueeze = make_node(
+        name=f"Unsqueeze of node {gemm_layer.original_name}",
+        op_type="Unsqueeze",
+        inputs=[product_name, axes_name],
+        outputs=[output_name],
+    )
 
     weight = create_initializer_tensor(
         name=weight_name,
@@ -378,9 +392,14 @@ def export_gemm(
         tensor_array=gemm_layer.biases,
         data_type=tensor_dtype,
     )
-    initializer = [weight, bias]
+    axes = create_initializer_tensor(
+        name=axes_name,
+        tensor_array=np.array([0, 1]),
+        data_type=onnx.TensorProto.INT64,
+    )
+    initializer = [weight, bias, axes]
 
-    return node, initializer
+    return [flatten, node, unsqueeze], initializer
 
 
 def export_matmul(
diff --git a/src/acetone_nnet/exporters/ONNX_exporter/exporter_onnx.py b/src/acetone_nnet/exporters/ONNX_exporter/exporter_onnx.py
index 8e57ed0..6ac7151 100644
--- a/src/acetone_nnet/exporters/ONNX_exporter/exporter_onnx.py
+++ b/src/acetone_nnet/exporters/ONNX_exporter/exporter_onnx.py
@@ -60,7 +60,7 @@ def onnx_exporter(
         exporter = list_exporters.get(layer.name, None)
         if exporter is not None:
             node, initializer = exporter(layer, datatype_py)
-            nodes.append(node)
+            nodes.extend(node if isinstance(node, list) else [node])
             initializers.extend(initializer)
 
         if (hasattr(layer, "activation_function")
-- 
2.43.0


From f054aa700b5849dbc41cbd327e75e4980d24c0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:10 +0000
Subject: [PATCH 111/115] fix: the factors of an exported Gemm are
 floating-point attributes

---
 .../exporters/ONNX_exporter/acetone_to_onnx_layer.py          | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
index 5321314..dbca5da 100644
--- a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
+++ b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
@@ -370,8 +370,8 @@ def export_gemm(
         op_type="Gemm",
         inputs=[flat_name, weight_name, bias_name],
         outputs=[product_name],
-        alpha=1 if not gemm_layer.alpha else gemm_layer.alpha[0],
-        beta=1 if not gemm_layer.beta else gemm_layer.beta[0],
+        alpha=1. if not gemm_layer.alpha else float(gemm_layer.alpha[0]),
+        beta=1. if not gemm_layer.beta else float(gemm_layer.beta[0]),
         transA=gemm_layer.transpo[0],
         transB=gemm_layer.transpo[1],
     )
-- 
2.43.0


From 493478892b93f6ed2d6c963548c6f73ba7adac23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:04 +0000
Subject: [PATCH 112/115] fix: the row an exported Gemm reads is not transposed

---
 .../exporters/ONNX_exporter/acetone_to_onnx_layer.py            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
index dbca5da..991dd04 100644
--- a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
+++ b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
@@ -372,7 +372,7 @@ def export_gemm(
         outputs=[product_name],
         alpha=1. if not gemm_layer.alpha else float(gemm_layer.alpha[0]),
         beta=1. if not gemm_layer.beta else float(gemm_layer.beta[0]),
-        transA=gemm_layer.transpo[0],
+        transA=0,  # already a row
         transB=gemm_layer.transpo[1],
     )
     unsqueeze = make_node(
-- 
2.43.0


From 102519cfe1bdd9380e1929eaf2f8d6deec647bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:36 +0000
Subject: [PATCH 113/115] fix: Silu is exported with the operators of ONNX

---
 .../ONNX_exporter/acetone_to_onnx_layer.py    | 50 +++++++++----------
 .../exporters/ONNX_exporter/exporter_onnx.py  |  2 +-
 2 files changed, 26 insertions(+), 26 deletions(-)

diff --git a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
index 991dd04..30b86e7 100644
--- a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
+++ b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
@@ -609,6 +609,28 @@ def export_transpose(
 
     return node, []
 
+def export_gated_sigmoid(
+        layer: Layer,
+        input_name: str,
+        output_name: str,
+) -> list[onnx.NodeProto]:
+    """Make the nodes that multiply a tensor by its sigmoid."""
+    gate_name = f"{layer.name}_{layer.idx}_gate"
+    return [
+        make_node(
+            name=f"Sigmoid of node {layer.original_name}",
+            op_type="Sigmoid",
+            inputs=[input_name],
+            outputs=[gate_name],
+        ),
+        make_node(
+            name=f"Gate of node {layer.original_name}",
+            op_type="Mul",
+            inputs=[input_name, gate_name],
+            outputs=[output_name],
+        ),
+    ]
+
 def get_activation_op_type(activation_layer: ActivationLayer) -> str | None:
     """Retrieve the corresponding ONNX op_type from an ACETONE Activation layer."""
     match activation_layer.name:
@@ -642,13 +664,7 @@ def export_activation(
     op_tye = get_activation_op_type(activation_layer)
 
     if op_tye == "Silu":
-        @onnx_op(
-            op_type="Silu",
-            inputs=[tensor_dtype],
-            outputs=[tensor_dtype],
-        )
-        def silu(tensor: np.array) -> np.array:
-            return tensor / (1 + np.exp(-tensor))
+        return export_gated_sigmoid(activation_layer, inputs_name[0], output_name), []
 
     attributes = {}
     initializer = []
@@ -748,27 +764,11 @@ def export_silu(
         layer: Layer,
         dtype_py:np.dtype,
 ) -> tuple[onnx.NodeProto, list[onnx.TensorProto]]:
-    """Export an ACETONE Silu activation function to an ONNX makeshift silu layer."""
-    tensor_dtype = np_dtype_to_tensor_dtype(np.dtype(dtype_py.__name__))
-    @onnx_op(
-        op_type="Silu",
-        inputs=[tensor_dtype],
-        outputs=[tensor_dtype],
-    )
-    def silu(tensor: np.array) -> np.array:
-        return tensor / (1 + np.exp(-tensor))
-
+    """Export an ACETONE Silu activation function to ONNX Sigmoid and Mul layers."""
     intput_name = f"{layer.name}_{layer.idx}_pre_activation"
     output_name= f"{layer.name}_{layer.idx}"
 
-    node = make_node(
-        name=f"Silu fonction from node {layer.original_name} ",
-        op_type="Silu",
-        inputs=[intput_name],
-        outputs=[output_name],
-    )
-
-    return node, []
+    return export_gated_sigmoid(layer, intput_name, output_name), []
 
 def export_tanh(
         layer: Layer,
diff --git a/src/acetone_nnet/exporters/ONNX_exporter/exporter_onnx.py b/src/acetone_nnet/exporters/ONNX_exporter/exporter_onnx.py
index 6ac7151..4ab08a5 100644
--- a/src/acetone_nnet/exporters/ONNX_exporter/exporter_onnx.py
+++ b/src/acetone_nnet/exporters/ONNX_exporter/exporter_onnx.py
@@ -71,7 +71,7 @@ def onnx_exporter(
             activation_exporter = list_activation_exporters.get(layer.activation_function.name, None)
             if activation_exporter is not None:
                 node, initializer = activation_exporter(layer, datatype_py)
-                nodes.append(node)
+                nodes.extend(node if isinstance(node, list) else [node])
                 initializers.extend(initializer)
 
     graph = helper.make_graph(
-- 
2.43.0


From 2d5686ea840fe1defca3c7a8c9b231ba656b4ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:36 +0000
Subject: [PATCH 114/115] fix: Dense is exported with the operators of ONNX

---
 .../ONNX_exporter/acetone_to_onnx_layer.py    | 134 +++++++++---------
 1 file changed, 65 insertions(+), 69 deletions(-)

diff --git a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
index 30b86e7..cfc82d0 100644
--- a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
+++ b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
@@ -22,7 +22,6 @@
 import numpy as np
 import onnx
 from onnx.helper import make_node, make_tensor_value_info, np_dtype_to_tensor_dtype
-from onnxruntime_extensions import onnx_op
 
 from acetone_nnet import MatMul
 from acetone_nnet.generator.activation_functions import Linear
@@ -243,36 +242,18 @@ def export_conv2d(
 def export_dense(
         dense_layer: Dense,
         dtype_py:np.dtype,
-) -> tuple[onnx.NodeProto, list[onnx.TensorProto]]:
-    """Export ACETONE dense layer to an ONNX dense layer.
-
-    The custom dense layer is made with onnxruntime_extension. (see: https://onnxruntime.ai/docs/extensions/add-op.html).
-    """
-    tensor_dtype = np_dtype_to_tensor_dtype(np.dtype(dtype_py.__name__))
-    @onnx_op(op_type="Dense",
-             inputs=[tensor_dtype,tensor_dtype,tensor_dtype],
-             outputs=[tensor_dtype])
-    def dense(tensor:np.array,weight:np.array,bias:np.array) -> np.array:
-        return np.dot(tensor,weight) + bias
-
+) -> tuple[list[onnx.NodeProto], list[onnx.TensorProto]]:
+    """Export ACETONE dense layer to an ONNX Gemm layer, between changes from and to four dimensions."""
     output_name, inputs_name = generate_input_output_name(dense_layer)
-    weight_name = f"{dense_layer.name}_{dense_layer.idx}_weight"
-    bias_name = f"{dense_layer.name}_{dense_layer.idx}_bias"
-    inputs_name.extend([weight_name,bias_name])
-    node = make_node(
-        "Dense", inputs_name, [output_name], name=dense_layer.original_name
+    return export_row_product(
+        dense_layer,
+        inputs_name[0],
+        output_name,
+        dtype_py,
+        weights=dense_layer.weights,
+        biases=dense_layer.biases,
     )
 
-    weights = create_initializer_tensor(
-        name=weight_name, tensor_array=dense_layer.weights, data_type=tensor_dtype,
-    )
-    biases = create_initializer_tensor(
-        name=bias_name, tensor_array=dense_layer.biases, data_type=tensor_dtype,
-    )
-    initializer = [weights, biases]
-
-    return node, initializer
-
 def export_flatten(
         flatten_layer: Flatten,
         dtype_py:np.dtype,
@@ -345,61 +326,76 @@ def export_gather_elements(
 
     return node, initializer
 
-def export_gemm(
-    gemm_layer: Gemm,
-        dtype_py:np.dtype,
+def export_row_product(
+        layer: Dense | Gemm,
+        input_name: str,
+        output_name: str,
+        dtype_py: np.dtype,
+        weights: np.ndarray,
+        biases: np.ndarray,
+        **attributes: float,
 ) -> tuple[list[onnx.NodeProto], list[onnx.TensorProto]]:
-    """Export ACETONE Gemm layer to an ONNX Gemm layer, between changes from and to four dimensions."""
+    """Make the nodes that multiply a flattened tensor by a matrix."""
     tensor_dtype = np_dtype_to_tensor_dtype(np.dtype(dtype_py.__name__))
 
-    output_name, inputs_name = generate_input_output_name(gemm_layer)
-    weight_name = f"{gemm_layer.name}_{gemm_layer.idx}_weight"
-    bias_name = f"{gemm_layer.name}_{gemm_layer.idx}_bias"
-    flat_name = f"{gemm_layer.name}_{gemm_layer.idx}_flat"
-    product_name = f"{gemm_layer.name}_{gemm_layer.idx}_product"
-    axes_name = f"{gemm_layer.name}_{gemm_layer.idx}_axes"
-
+    prefix = f"{layer.name}_{layer.idx}"
     flatten = make_node(
-        name=f"Flatten of node {gemm_layer.original_name}",
+        name=f"Flatten of node {layer.original_name}",
         op_type="Flatten",
-        inputs=inputs_name,
-        outputs=[flat_name],
+        inputs=[input_name],
+        outputs=[f"{prefix}_flat"],
     )
-    node = make_node(
-        name=gemm_layer.original_name,
+    product = make_node(
+        name=layer.original_name,
         op_type="Gemm",
-        inputs=[flat_name, weight_name, bias_name],
-        outputs=[product_name],
-        alpha=1. if not gemm_layer.alpha else float(gemm_layer.alpha[0]),
-        beta=1. if not gemm_layer.beta else float(gemm_layer.beta[0]),
-        transA=0,  # already a row
-        transB=gemm_layer.transpo[1],
+        inputs=[f"{prefix}_flat", f"{prefix}_weight", f"{prefix}_bias"],
+        outputs=[f"{prefix}_product"],
+        **attributes,
     )
     unsqueeze = make_node(
-        name=f"Unsqueeze of node {gemm_layer.original_name}",
+        name=f"Unsqueeze of node {layer.original_name}",
         op_type="Unsqueeze",
-        inputs=[product_name, axes_name],
+        inputs=[f"{prefix}_product", f"{prefix}_axes"],
         outputs=[output_name],
     )
 
-    weight = create_initializer_tensor(
-        name=weight_name,
-        tensor_array=gemm_layer.weights,
-        data_type=tensor_dtype,
-    )
-    bias = create_initializer_tensor(
-        name=bias_name,
-        tensor_array=gemm_layer.biases,
-        data_type=tensor_dtype,
-    )
-    axes = create_initializer_tensor(
-        name=axes_name,
-        tensor_array=np.array([0, 1]),
-        data_type=onnx.TensorProto.INT64,
-    )
-    initializer = [weight, bias, axes]
+    initializer = [
+        create_initializer_tensor(
+            name=f"{prefix}_weight",
+            tensor_array=weights,
+            data_type=tensor_dtype,
+        ),
+        create_initializer_tensor(
+            name=f"{prefix}_bias",
+            tensor_array=biases,
+            data_type=tensor_dtype,
+        ),
+        create_initializer_tensor(
+            name=f"{prefix}_axes",
+            tensor_array=np.array([0, 1]),
+            data_type=onnx.TensorProto.INT64,
+        ),
+    ]
 
-    return [flatten, node, unsqueeze], initializer
+    return [flatten, product, unsqueeze], initializer
+
+def export_gemm(
+    gemm_layer: Gemm,
+        dtype_py:np.dtype,
+) -> tuple[list[onnx.NodeProto], list[onnx.TensorProto]]:
+    """Export ACETONE Gemm layer to an ONNX Gemm layer, between changes from and to four dimensions."""
+    output_name, inputs_name = generate_input_output_name(gemm_layer)
+    return export_row_product(
+        gemm_layer,
+        inputs_name[0],
+        output_name,
+        dtype_py,
+        weights=gemm_layer.weights,
+        biases=gemm_layer.biases,
+        alpha=1. if not gemm_layer.alpha else float(gemm_layer.alpha[0]),
+        beta=1. if not gemm_layer.beta else float(gemm_layer.beta[0]),
+        transB=gemm_layer.transpo[1],
+    )
 
 
 def export_matmul(
-- 
2.43.0


From 424a865c21aaa317d598bf8501fd0f17150214e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:17 +0000
Subject: [PATCH 115/115] fix: announce the number of samples read from a test
 set file

---
 src/acetone_nnet/generator/neural_network.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index 5958ca6..5f81106 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -403,6 +403,7 @@ class CodeGenerator(ABC):
                 self.nb_tests = dataset.shape[0]
             case Path() | str() as path:
                 d = self._load_dataset(Path(path), self.data_type_py, nb_tests)
+                self.nb_tests = d.shape[0]
             case _:
                 raise ValueError
         return d
-- 
2.43.0

