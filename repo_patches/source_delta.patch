From 481f147660c0d327716711694fc320e75c95fb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:58 +0000
Subject: [PATCH 001/111] fix: let parent graphs know which outputs a body
 graph uses

---
 tf2onnx/graph.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tf2onnx/graph.py b/tf2onnx/graph.py
index 241a82e..ae3d695 100644
--- a/tf2onnx/graph.py
+++ b/tf2onnx/graph.py
@@ -363,6 +363,10 @@ class Node(object):
 
         self.graph.contained_graphs[self.name].update({attr_name: graph})
         graph.parent_graph = self.graph
+        # The nodes of the body graph were registered while it had no parent: let the parent graphs know which of
+        # their outputs the body graph uses.
+        for input_name in {**graph._output_to_consumers, **graph._input_to_graph}:
+            graph._register_input_name(input_name, None, only_graph=True)
 
     def update_proto(self, external_tensor_storage=None):
         """Update protobuf from internal structure."""
@@ -1422,6 +1426,9 @@ class Graph(object):
             if input_name in self._output_to_consumers[input_name]:
                 if node_name in self._output_to_consumers[input_name]:
                     self._output_to_consumers[input_name].remove(node_name)
+        if any(n is not node for n in self.find_output_consumers(input_name)):
+            # another node of this graph or of its body graphs still takes this input
+            return
         if (self.parent_graph is not None and
                 input_name in self.parent_graph._input_to_graph and
                 id(self) in self.parent_graph._input_to_graph[input_name]):
-- 
2.43.0


From 13f3fd7c131b48b4a83db9c651ce6b54474e69a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:58 +0000
Subject: [PATCH 002/111] fix: do not push a transpose through an op whose
 other operand has a higher rank

---
 tf2onnx/optimizer/transpose_optimizer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tf2onnx/optimizer/transpose_optimizer.py b/tf2onnx/optimizer/transpose_optimizer.py
index f2c91c7..c650b1b 100644
--- a/tf2onnx/optimizer/transpose_optimizer.py
+++ b/tf2onnx/optimizer/transpose_optimizer.py
@@ -434,6 +434,11 @@ class TransposeOptimizer(GraphOptimizerBase):
                 if [input_id, n] not in non_nhwc_trans_inputs:
                     non_nhwc_trans_inputs.append([input_id, n])
 
+        # the result takes the rank of the operand with the highest rank: no transpose of rank trans_rank fits it
+        shapes = [self._g.get_shape(input_id) for input_id, _ in non_nhwc_trans_inputs]
+        if any(shape is not None and len(shape) > trans_rank for shape in shapes):
+            return False
+
         # add Transpose NHWC_TO_NCHW and Transpose NCHW_TO_NHWC before each non_nhwc_trans_consumers
         shape_unknow = [input_id for input_id, _ in non_nhwc_trans_inputs if self._g.get_shape(input_id) is None]
         if shape_unknow:
-- 
2.43.0


From 82fc764f36e8e406e707997ff8f397321449672a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:58 +0000
Subject: [PATCH 003/111] fix: update the shape when a transpose is pushed
 through the square of its output

---
 tf2onnx/optimizer/transpose_optimizer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tf2onnx/optimizer/transpose_optimizer.py b/tf2onnx/optimizer/transpose_optimizer.py
index c650b1b..f221a0a 100644
--- a/tf2onnx/optimizer/transpose_optimizer.py
+++ b/tf2onnx/optimizer/transpose_optimizer.py
@@ -559,6 +559,11 @@ class TransposeOptimizer(GraphOptimizerBase):
             self._g.replace_input(node, node.input[0], trans.input[0], 0)
             self._g.replace_input(node, node.input[1], trans.input[0], 1)
             self._g.replace_input(trans, trans.input[0], node.output[0], 0)
+            shape = self._g.get_shape(node.output[0])
+            if shape:
+                perm_inv = invert_perm(trans.get_attr_value("perm"))
+                self._g.set_shape(node.output[0], [shape[i] for i in perm_inv])
+                self._g.set_shape(trans.output[0], shape)
             return True
 
         # convert  mul(trans(x), trans(y)) ->  trans(mul(x, y))
-- 
2.43.0


From f5bc2ed1aceeef0a6ba9e1af8330ecfd0fdf87d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:58 +0000
Subject: [PATCH 004/111] fix: keep the starts of a Slice that uses one const
 as starts and axes

---
 tf2onnx/optimizer/transpose_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/optimizer/transpose_optimizer.py b/tf2onnx/optimizer/transpose_optimizer.py
index f221a0a..d1563ee 100644
--- a/tf2onnx/optimizer/transpose_optimizer.py
+++ b/tf2onnx/optimizer/transpose_optimizer.py
@@ -981,7 +981,7 @@ class TransposeOptimizer(GraphOptimizerBase):
             axes = [perm[axes[i]] for i in range(len(axes))]
             # axes node might be shared
             new_axes = np.array(axes, dtype=dtype)
-            if self._nodes_has_single_consumer_node([node.inputs[3]]):
+            if self._nodes_has_single_consumer_node([node.inputs[3]]) and node.input.count(node.input[3]) == 1:
                 node.inputs[3].set_tensor_value(new_axes)
             else:
                 new_axes_const = self._g.make_const(
-- 
2.43.0


From ef45ee351ce5d9fac2202a9a47ffc2fd37069f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:58 +0000
Subject: [PATCH 005/111] fix: keep start and end of a Shape op that follows a
 transpose

---
 tf2onnx/optimizer/transpose_optimizer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tf2onnx/optimizer/transpose_optimizer.py b/tf2onnx/optimizer/transpose_optimizer.py
index d1563ee..02395d7 100644
--- a/tf2onnx/optimizer/transpose_optimizer.py
+++ b/tf2onnx/optimizer/transpose_optimizer.py
@@ -1014,6 +1014,9 @@ class TransposeOptimizer(GraphOptimizerBase):
 
     def _shape_handler(self, trans, node):
         # input > trans > shape  can be changed into  input > shape > gather
+        if "start" in node.attr or "end" in node.attr:
+            # only a part of the shape is wanted
+            return False
         if not self._nodes_has_single_consumer_node([trans]):
             return False
 
-- 
2.43.0


From e6ebc750a6db5d3cf8d0db94771ed7b1e94ccb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:58 +0000
Subject: [PATCH 006/111] fix: permute the default axis when a transpose is
 pushed through per channel quantization

---
 tf2onnx/optimizer/transpose_optimizer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tf2onnx/optimizer/transpose_optimizer.py b/tf2onnx/optimizer/transpose_optimizer.py
index 02395d7..b1f3c03 100644
--- a/tf2onnx/optimizer/transpose_optimizer.py
+++ b/tf2onnx/optimizer/transpose_optimizer.py
@@ -1002,9 +1002,9 @@ class TransposeOptimizer(GraphOptimizerBase):
                 return False
         if not self._switch_transpose_and_node(node, trans):
             return False
-        if 'axis' in node.attr:
-            perm = trans.get_attr_value("perm")
-            axis = node.get_attr_value("axis")
+        perm = trans.get_attr_value("perm")
+        if 'axis' in node.attr or (self._g.opset >= 13 and len(perm) > 1 and self._g.get_shape(node.input[1]) != []):
+            axis = node.get_attr_value("axis", 1)
             new_axis = perm[axis]
             node.set_attr("axis", new_axis)
         return True
-- 
2.43.0


From f3e0c7f3a3238e5f1df4643433cde1f6a7c21bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:58 +0000
Subject: [PATCH 007/111] fix: handle a negative axis when a transpose is
 pushed through softmax before opset 13

---
 tf2onnx/optimizer/transpose_optimizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tf2onnx/optimizer/transpose_optimizer.py b/tf2onnx/optimizer/transpose_optimizer.py
index b1f3c03..7c5a9ee 100644
--- a/tf2onnx/optimizer/transpose_optimizer.py
+++ b/tf2onnx/optimizer/transpose_optimizer.py
@@ -874,6 +874,8 @@ class TransposeOptimizer(GraphOptimizerBase):
         # For older opsets, the "axis" attribute determines the coercion point for coercing the input tensor to 2D.
         # We can safely switch transpose and node if the permutation does not make any axes cross that boundary.
         coercion_axis = node.get_attr_value("axis", 1)
+        if coercion_axis < 0:
+            coercion_axis += trans_rank
         for from_axis, to_axis in enumerate(perm):
             if (from_axis < coercion_axis <= to_axis) or (from_axis >= coercion_axis > to_axis):
                 return False
-- 
2.43.0


From 4b13e96a8c4be9782d2f7bfd914177f5906ff033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:58 +0000
Subject: [PATCH 008/111] fix: only fold a const into Conv weights or bias when
 it runs along the channels and is not shared

---
 tf2onnx/optimizer/transpose_optimizer.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/tf2onnx/optimizer/transpose_optimizer.py b/tf2onnx/optimizer/transpose_optimizer.py
index 7c5a9ee..5ff18a8 100644
--- a/tf2onnx/optimizer/transpose_optimizer.py
+++ b/tf2onnx/optimizer/transpose_optimizer.py
@@ -495,20 +495,26 @@ class TransposeOptimizer(GraphOptimizerBase):
                 target_node = node.inputs[1]
                 numpy_val = target_node.get_tensor_value(as_list=False)
                 # Optional 1D bias to be added to the convolution, has size of M
-                if len(numpy_val.shape) - numpy_val.shape.count(1) > 1:
-                    self.logger.debug("Bias is not 1D, can not merge Conv and Add")
+                perm = trans.get_attr_value("perm")
+                if perm[-1] != 1 or not 0 < len(numpy_val.shape) <= len(perm) \
+                        or any(d != 1 for d in numpy_val.shape[:-1]):
+                    self.logger.debug("Bias is not 1D along the channels, can not merge Conv and Add")
                     return self._handle_node_having_branches(trans, node)
 
-                bias_size = max(numpy_val.shape)
+                bias_size = numpy_val.shape[-1]
                 size_m = t_p.inputs[1].output_shapes[0][0]
+                if t_p.type == "ConvTranspose":
+                    size_m = t_p.inputs[1].output_shapes[0][1] * t_p.get_attr_value("group", 1)
                 if bias_size != size_m:
                     self.logger.debug("Bias size is not M, can not merge Conv and Add")
                     return self._handle_node_having_branches(trans, node)
 
                 target_val = numpy_val.reshape(bias_size)
+                if not self._nodes_has_single_consumer_node([target_node]):
+                    target_node = self._g.copy_const(target_node)
                 target_node.set_tensor_value(target_val)
 
-                conv_inputs = [t_p.input[0], t_p.input[1], node.input[1]]
+                conv_inputs = [t_p.input[0], t_p.input[1], target_node.output[0]]
                 conv_node = self._g.make_node(t_p.type, conv_inputs, attr=t_p.get_onnx_attrs())
                 self._g.replace_input(trans, trans.input[0], utils.port_name(conv_node.name), 0)
                 self._g.replace_all_inputs(node.output[0], trans.output[0])  # ops=self._g.get_nodes()
@@ -590,9 +596,11 @@ class TransposeOptimizer(GraphOptimizerBase):
             # make sure conv don't have bias set
             can_opt = t_p.type == "Conv" and t_p.inputs[1].is_const() and len(t_p.input) == 2 and trans_rank == 4
             can_opt = can_opt and self._nodes_has_single_consumer_node([t_p])
+            # the weights must not be used by another op
+            can_opt = can_opt and self._nodes_has_single_consumer_node([t_p.inputs[1]])
             # make sure multiplier with shape (N,) or (1, N) or (1, 1, N) ....
             can_opt = can_opt and trans.get_attr_value("perm") == NCHW_TO_NHWC \
-                and all(shape == 1 for shape in multiplier.shape[:-1])
+                and len(multiplier.shape) <= trans_rank and all(shape == 1 for shape in multiplier.shape[:-1])
             if can_opt:
                 conv = t_p
                 numpy_val = conv.inputs[1].get_tensor_value(as_list=False)
-- 
2.43.0


From e8b929d85859a106cbee7105ef13e67a016ed027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:45 +0000
Subject: [PATCH 009/111] fix: push a transpose through Mul and Sum only once
 per const and only for consts of fitting rank

---
 tf2onnx/optimizer/transpose_optimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/optimizer/transpose_optimizer.py b/tf2onnx/optimizer/transpose_optimizer.py
index 5ff18a8..ae81df0 100644
--- a/tf2onnx/optimizer/transpose_optimizer.py
+++ b/tf2onnx/optimizer/transpose_optimizer.py
@@ -623,7 +623,7 @@ class TransposeOptimizer(GraphOptimizerBase):
             return self._switch_transpose_and_node(node, trans)
 
         # if multiplier has shape (N,) or (1, N) or (1, 1, N) ....
-        if np.prod(multiplier.shape) == multiplier.shape[-1]:
+        if np.prod(multiplier.shape) == multiplier.shape[-1] and len(multiplier.shape) <= get_transpose_rank(trans):
             if not self._nodes_has_single_consumer_node([multiplier_input_node]):
                 new_inp = self._g.copy_const(multiplier_input_node)
                 self._g.replace_input(node, multiplier_input_id, new_inp.output[0], multiplier_input_idx)
@@ -671,7 +671,7 @@ class TransposeOptimizer(GraphOptimizerBase):
             self._g.set_shape(node.output[0], [shape[i] for i in untrans_idx])
 
         # update constants, remove dangling transposes
-        for n in inputs:
+        for n in {n.name: n for n in inputs}.values():
             if n.is_const():
                 val = n.get_tensor_value(as_list=False)
                 new_val = np.transpose(val, untrans_idx)
-- 
2.43.0


From 641bf489d6627e9d1abf464c96d4950a1c725426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:29 +0000
Subject: [PATCH 010/111] fix: do not push a transpose through a Pad op that
 lists its axes

---
 tf2onnx/optimizer/transpose_optimizer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tf2onnx/optimizer/transpose_optimizer.py b/tf2onnx/optimizer/transpose_optimizer.py
index ae81df0..d4a9d26 100644
--- a/tf2onnx/optimizer/transpose_optimizer.py
+++ b/tf2onnx/optimizer/transpose_optimizer.py
@@ -844,6 +844,10 @@ class TransposeOptimizer(GraphOptimizerBase):
             node.set_attr("pads", new_pads)
             return self._switch_transpose_and_node(node, trans)
 
+        if len(node.input) > 3 and node.input[3]:
+            # pads only the given axes
+            return False
+
         input1 = node.inputs[1]
         if input1.is_const():
             if not self._nodes_has_single_consumer_node([input1]):
-- 
2.43.0


From 7dd12f64f60994307aef8ab792979a6ab006bd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:34 +0000
Subject: [PATCH 011/111] fix: do not overflow when a Slice of size -1 starts
 at a runtime offset

---
 tf2onnx/onnx_opset/tensor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index da07549..2b21b0a 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -350,7 +350,9 @@ class Slice:
 
             size_are_neg_one_flag = ctx.make_node("Equal", [neg_one, size]).output[0]
             size_are_neg_one_flag = ctx.make_node("Cast", [size_are_neg_one_flag], attr={"to": size_dtype}).output[0]
-            value_to_add = ctx.make_node("Mul", [int_max, size_are_neg_one_flag]).output[0]
+            # starts are added below: leave room for them so that the sum does not overflow
+            max_size = ctx.make_node("Sub", [int_max, starts]).output[0]
+            value_to_add = ctx.make_node("Mul", [max_size, size_are_neg_one_flag]).output[0]
             size_processed = ctx.make_node("Add", [size, value_to_add]).output[0]
             ends = ctx.make_node("Add", [starts, size_processed]).output[0]
 
-- 
2.43.0


From e42d12d0d24643f1e50c1fa120fc07c53d784e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:34 +0000
Subject: [PATCH 012/111] fix: a StridedSlice from a negative begin to end 0 is
 empty

---
 tf2onnx/onnx_opset/tensor.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index 2b21b0a..acbeffe 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -874,10 +874,6 @@ class StridedSlice:
             axes.append(idx + ellipsis_gap)
             end_item = end[idx]
 
-            # an implicit condition is stride == 1 (checked in above)
-            if begin_item < 0 and end_item == 0:
-                end_item = max_size
-
             mask = (shrink_axis_mask >> idx) & 1
             if mask != 0:
                 new_begin.append(begin_item)
-- 
2.43.0


From d8423708af8bcfb5ad153eb4c038224bc19e9458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:34 +0000
Subject: [PATCH 013/111] fix: a masked begin of a StridedSlice is the first
 element for positive strides

---
 tf2onnx/onnx_opset/tensor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index acbeffe..dd883c9 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -1091,6 +1091,7 @@ class StridedSlice:
                 idx1 = np.where(new_begin_mask == 0)
                 idx2 = np.where(strides_vals < 0)
                 idx3 = np.intersect1d(idx1, idx2)
+                new_begin_vals[idx1] = 0
                 new_begin_vals[idx3] = max_size
                 begin = ctx.make_const(utils.make_name("begin_masked"), new_begin_vals).output[0]
             else:
@@ -1098,8 +1099,9 @@ class StridedSlice:
                 zero_const = ctx.make_const(utils.make_name("zero_const"), np.zeros(1, dtype=np_dtype))
                 max_const = ctx.make_const(utils.make_name("max_const"), np.array(max_size, dtype=np_dtype))
                 op1 = ctx.make_node("Less", [strides, zero_const.output[0]], op_name_scope=node.name)
-                op2 = ctx.make_node("And", [op1.output[0], begin_mask_const.output[0]], op_name_scope=node.name)
-                begin = ctx.make_node("Where", [op2.output[0], max_const.output[0], begin],
+                op2 = ctx.make_node("Where", [op1.output[0], max_const.output[0], zero_const.output[0]],
+                                    op_name_scope=node.name)
+                begin = ctx.make_node("Where", [begin_mask_const.output[0], op2.output[0], begin],
                                       op_name_scope=node.name).output[0]
 
         # mask end
-- 
2.43.0


From 67d5c484719ac80303df8186afffa447685269ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:34 +0000
Subject: [PATCH 014/111] fix: StridedSlice with an ellipsis that stands for no
 axis

---
 tf2onnx/onnx_opset/tensor.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index dd883c9..cc993dd 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -993,6 +993,30 @@ class StridedSlice:
         )
         param_rank = param_shape[0]
 
+        input_shape = ctx.get_shape(input_x)
+        ellipsis_bits = [i for i in range(param_rank) if (ellipsis_mask >> i) & 1]
+        if ellipsis_bits and input_shape is not None:
+            bit = ellipsis_bits[0]
+            num_new = len([i for i in range(param_rank) if (new_axis_mask >> i) & 1 and i != bit])
+            if len(input_shape) == param_rank - num_new - 1:
+                # the ellipsis stands for no axis: drop its entry from all parameters
+                keep = [i for i in range(param_rank) if i != bit]
+                params = []
+                for param in [begin, end, strides]:
+                    if ctx.is_const(param):
+                        val = ctx.get_tensor_value(param, as_list=False)[keep]
+                        params.append(ctx.make_const(utils.make_name(node.name), val).output[0])
+                    else:
+                        keep_const = ctx.make_const(utils.make_name(node.name), np.array(keep, dtype=np.int64))
+                        params.append(ctx.make_node("Gather", [param, keep_const.output[0]], attr={"axis": 0},
+                                                    op_name_scope=node.name).output[0])
+                begin, end, strides = params
+                begin_mask, end_mask, new_axis_mask, shrink_axis_mask = \
+                    [(m & ((1 << bit) - 1)) | ((m >> (bit + 1)) << bit)
+                     for m in [begin_mask, end_mask, new_axis_mask, shrink_axis_mask]]
+                ellipsis_mask = 0
+                param_rank -= 1
+
         if new_axis_mask != 0:
             unqueeze_at = []
             ellipsis_gap = 0
-- 
2.43.0


From e3d4e153f740d1d6ffedd35f379250e616be0253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:43 +0000
Subject: [PATCH 015/111] fix: SplitV with a size of -1 along a dimension that
 is not known

---
 tf2onnx/onnx_opset/tensor.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index cc993dd..6f2ca64 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -749,7 +749,8 @@ class SplitV:
         if -1 in split:
             # negative split = use the remaining size
             shape = ctx.get_shape(node.input[0])
-            final_sum = shape[split_dims]
+            final_sum = shape[split_dims] if shape is not None else -1
+            utils.make_sure(final_sum >= 0, "SplitV op %s with size -1 requires the dimension to be known", node.name)
             sums = sum([i for i in split if i >= 0])
             for i, v in enumerate(split):
                 if v == -1:
@@ -766,7 +767,13 @@ class SplitV:
     @classmethod
     def version_13(cls, ctx, node, **kwargs):
         # Split now supports dynamic split lengths
+        shape = ctx.get_shape(node.input[0])
         if node.inputs[1].is_const():
+            axis = node.inputs[2].get_tensor_value()
+            static = -1 not in node.inputs[1].get_tensor_value() or (shape is not None and shape[axis] >= 0)
+        else:
+            static = False
+        if static:
             # Call version 1 to deal with -1 cases
             cls.version_1(ctx, node, **kwargs)
             # Convert attr to input
@@ -775,13 +782,24 @@ class SplitV:
             ctx.replace_inputs(node, [node.input[0], split_const.output[0]])
             del node.attr["split"]
         else:
-            # Technically incorrect if any of the splits are -1
             node.type = "Split"
             split_dims = node.inputs[2].get_tensor_value()
             ctx.remove_input(node, node.input[2], 2)
             node.set_attr("axis", split_dims)
             if ctx.get_dtype(node.input[1]) != TensorProto.INT64:
                 ctx.insert_new_node_on_input(node, "Cast", node.input[1], to=TensorProto.INT64)
+            # a size of -1 stands for the remaining elements: dim - (sum(sizes) + 1)
+            split = node.input[1]
+            axis_const = ctx.make_const(utils.make_name("axis"), np.array([split_dims], np.int64)).output[0]
+            one = ctx.make_const(utils.make_name("one"), np.array([1], np.int64)).output[0]
+            zero = ctx.make_const(utils.make_name("zero"), np.array([0], np.int64)).output[0]
+            dims = ctx.make_node("Shape", [node.input[0]]).output[0]
+            dim = ctx.make_node("Gather", [dims, axis_const], attr={"axis": 0}).output[0]
+            total = ctx.make_node("ReduceSum", [split], attr={"keepdims": 1}).output[0]
+            rest = ctx.make_node("Sub", [ctx.make_node("Sub", [dim, total]).output[0], one]).output[0]
+            is_rest = ctx.make_node("Less", [split, zero]).output[0]
+            sizes = ctx.make_node("Where", [is_rest, rest, split]).output[0]
+            ctx.replace_input(node, node.input[1], sizes, 1)
 
 
 @tf_op("ExpandDims")
-- 
2.43.0


From 5c43d3fcdf98b1b6ffd3cda33009a68ec7f10b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:17 +0000
Subject: [PATCH 016/111] fix: do not add a leading dimension to a Reshape that
 is a graph output

---
 tf2onnx/optimizer/reshape_optimizer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tf2onnx/optimizer/reshape_optimizer.py b/tf2onnx/optimizer/reshape_optimizer.py
index 3e5974b..73933d9 100644
--- a/tf2onnx/optimizer/reshape_optimizer.py
+++ b/tf2onnx/optimizer/reshape_optimizer.py
@@ -95,6 +95,9 @@ class ReshapeOptimizer(GraphOptimizerBase):
             return False
 
         new_reshape_shape = None
+        if shift > 0 and node.output[0] in graph.outputs:
+            # the squeeze would have to take over the name of the graph output
+            return False
         if shift > 0:
             new_shape = [1] * shift + new_shape
             squeeze_node = GraphBuilder(graph).make_squeeze(
-- 
2.43.0


From 7e2ac501957a0e7fb97946a8226e43e8cb8dc0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:35 +0000
Subject: [PATCH 017/111] fix: do not merge a Pad into a Conv2D that has
 explicit paddings

---
 tf2onnx/rewriter/conv2d_with_pad_rewriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/rewriter/conv2d_with_pad_rewriter.py b/tf2onnx/rewriter/conv2d_with_pad_rewriter.py
index ca281f6..d67c1d8 100644
--- a/tf2onnx/rewriter/conv2d_with_pad_rewriter.py
+++ b/tf2onnx/rewriter/conv2d_with_pad_rewriter.py
@@ -37,7 +37,7 @@ def rewrite_conv2d_with_pad(g, ops):
         if mode not in [None, "constant"] or len(pad.input) >= 3:
             continue
         # Conv2D already has a pad
-        if conv.get_attr("padding").s.decode("utf-8") == "SAME":
+        if conv.get_attr("padding").s.decode("utf-8") != "VALID":
             continue
 
         logger.debug("merge pad [%s] into conv [%s]", pad.name, conv.name)
-- 
2.43.0


From a5d46d96fb9cc674f253a84b029992ad1d3e8711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:35 +0000
Subject: [PATCH 018/111] fix: align the bias of a channel first BiasAdd with
 the channels when it is not a const

---
 tf2onnx/onnx_opset/nn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/onnx_opset/nn.py b/tf2onnx/onnx_opset/nn.py
index e2df904..56295cc 100644
--- a/tf2onnx/onnx_opset/nn.py
+++ b/tf2onnx/onnx_opset/nn.py
@@ -808,8 +808,8 @@ class BiasAdd:
             # so it needs being reshaped into 3-dim tensor before add
             shape0 = ctx.get_shape(node.input[0])
             shape1 = ctx.get_shape(node.input[1])
-            if node.inputs[1].type == 'Const' and len(shape1) == 1:
-                new_broadcast_shape = [shape1[0]] + [1] * (len(shape0) - 2)
+            if shape0 is not None and len(shape0) > 2:
+                new_broadcast_shape = [shape1[0] if shape1 else -1] + [1] * (len(shape0) - 2)
                 shape_name = utils.make_name(node.name)
                 ctx.make_const(shape_name, np.array(new_broadcast_shape, dtype=np.int64))
                 op_name = node.input[1]
-- 
2.43.0


From a184a011a93f4bbcc33a2cca235f87af550f1a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:35 +0000
Subject: [PATCH 019/111] fix: return the indices of MaxPoolWithArgmax in the
 requested type

---
 tf2onnx/onnx_opset/nn.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tf2onnx/onnx_opset/nn.py b/tf2onnx/onnx_opset/nn.py
index 56295cc..9eacf4c 100644
--- a/tf2onnx/onnx_opset/nn.py
+++ b/tf2onnx/onnx_opset/nn.py
@@ -778,6 +778,11 @@ class MaxPoolWithArgmaxOp:
             result = ctx.make_node("Add", [xyc, n_range_scale]).output[0]
         else:
             result = xyc
+        targmax = ctx.get_dtype(node.output[1])
+        if targmax is not None and targmax != TensorProto.INT64:
+            # onnx MaxPool always returns int64 indices
+            ctx.set_dtype(node.output[1], TensorProto.INT64)
+            result = ctx.make_node("Cast", [result], attr={'to': targmax}, dtypes=[targmax]).output[0]
         ctx.replace_all_inputs(node.output[1], result, ops=consumers)
 
         add_padding(ctx, node, kernel_shape, strides)
-- 
2.43.0


From 4b0f2c583fc7f40aa7c9bafc9d9bad6aae815776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:35 +0000
Subject: [PATCH 020/111] fix: pad a transposed convolution at the end when the
 output is larger than the windows

---
 tf2onnx/onnx_opset/nn.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/onnx_opset/nn.py b/tf2onnx/onnx_opset/nn.py
index 9eacf4c..d05c330 100644
--- a/tf2onnx/onnx_opset/nn.py
+++ b/tf2onnx/onnx_opset/nn.py
@@ -484,15 +484,26 @@ class ConvTranspose:
                 kernel_shape = parse_dims_attr(node, node.get_attr("kernel_shape").ints, spatial)
                 total_padding = [-1] * spatial
                 pads = [1] * (spatial * 2)
+                output_padding = [0] * spatial
+                explicit_pads = None
+                if node.get_attr_value("padding") == b"EXPLICIT":
+                    explicit_pads = node.get_attr_value("explicit_paddings")
                 for i in range(spatial):
                     total_padding[i] = (strides[i] * (input_dims[i] - 1)
                                         + ((kernel_shape[i] - 1) * dilations[i] + 1)
                                         - new_output_shape[i])
                     start_i = i
                     end_i = i + spatial
-                    pads[start_i] = int(total_padding[i] / 2)
-                    pads[end_i] = total_padding[i] - pads[start_i]
+                    if explicit_pads is not None:
+                        pads[start_i] = explicit_pads[2 * (i + (1 if is_channels_last(node) else 2))]
+                    else:
+                        pads[start_i] = max(total_padding[i], 0) // 2
+                    pads[end_i] = max(total_padding[i] - pads[start_i], 0)
+                    # anything beyond the last window is zero and comes at the end
+                    output_padding[i] = pads[start_i] + pads[end_i] - total_padding[i]
                 node.set_attr("pads", pads)
+                if any(output_padding):
+                    node.set_attr("output_padding", output_padding)
                 node.set_attr("auto_pad", "NOTSET")
         else:
             utils.make_sure(ctx.opset >= 10, "Opset 10 needed for Conv Backprop Input with non-constant shape")
-- 
2.43.0


From c40f35ad4be9958eed7451454750459db54fd8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:30 +0000
Subject: [PATCH 021/111] fix: pad a transposed convolution of unknown spatial
 size at the end

---
 tf2onnx/onnx_opset/nn.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tf2onnx/onnx_opset/nn.py b/tf2onnx/onnx_opset/nn.py
index d05c330..15f1964 100644
--- a/tf2onnx/onnx_opset/nn.py
+++ b/tf2onnx/onnx_opset/nn.py
@@ -472,6 +472,8 @@ class ConvTranspose:
                             "output dims cannot be smaller than input dims.")
             if -1 in input_dims:
                 node.set_attr("output_shape", new_output_shape)
+                # tf pads an odd number of elements at the end, without auto_pad onnx does it at the begin
+                node.set_attr("auto_pad", "SAME_UPPER")
             else:
                 if "strides" in node.attr:
                     strides = parse_dims_attr(node, node.get_attr("strides").ints, spatial)
-- 
2.43.0


From 216f6498af9008f9290638738942abc1d1c2ca2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:31 +0000
Subject: [PATCH 022/111] fix: only drop a cast between casts if it does not
 change values

---
 tf2onnx/optimizer/back_to_back_optimizer.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/optimizer/back_to_back_optimizer.py b/tf2onnx/optimizer/back_to_back_optimizer.py
index 3fa1a0e..e743ebb 100644
--- a/tf2onnx/optimizer/back_to_back_optimizer.py
+++ b/tf2onnx/optimizer/back_to_back_optimizer.py
@@ -7,7 +7,7 @@
 
 import numpy as np
 
-from tf2onnx.utils import ONNX_DTYPE_NAMES  # lgtm[py/unsafe-cyclic-import]
+from tf2onnx.utils import ONNX_DTYPE_NAMES, ONNX_TO_NUMPY_DTYPE  # lgtm[py/unsafe-cyclic-import]
 
 from .optimizer_base import GraphOptimizerBase  # lgtm[py/unsafe-cyclic-import]
 
@@ -91,6 +91,15 @@ class BackToBackOptimizer(GraphOptimizerBase):
                 g.remove_node(node.name)
                 return q2
 
+        # dropping a cast that changes values would change the result of the casts that follow
+        src_type = g.get_dtype(node.input[0])
+        lossless = False
+        if src_type in ONNX_TO_NUMPY_DTYPE and type1 in ONNX_TO_NUMPY_DTYPE:
+            src_np, type1_np = np.dtype(ONNX_TO_NUMPY_DTYPE[src_type]), np.dtype(ONNX_TO_NUMPY_DTYPE[type1])
+            # numpy takes 64 bit integers to double for a safe cast
+            lossless = np.can_cast(src_np, type1_np) and \
+                not (src_np.kind in "iu" and src_np.itemsize == 8 and type1_np.kind == "f")
+
         # otherwise, check consumer cast nodes for a target type
         # that contains more information than current type
         can_reduce = True
@@ -98,7 +107,9 @@ class BackToBackOptimizer(GraphOptimizerBase):
             type2 = node2.get_attr('to').i
             type2_name = ONNX_DTYPE_NAMES[type2] if type2 in ONNX_DTYPE_NAMES else ''
 
-            if 'float' in type1_name or type1_name == 'double':
+            if type1 != type2 and type1_name != 'string' and not lossless:
+                can_reduce = False
+            elif 'float' in type1_name or type1_name == 'double':
                 # high information type. ok to eliminate
                 pass
             elif 'int' in type1_name:
-- 
2.43.0


From 38b0378fd6a1113ab60a5d7b9c95dee7ebf0f36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:31 +0000
Subject: [PATCH 023/111] fix: keep a Reshape whose dimensions a following
 Reshape copies

---
 tf2onnx/optimizer/back_to_back_optimizer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tf2onnx/optimizer/back_to_back_optimizer.py b/tf2onnx/optimizer/back_to_back_optimizer.py
index e743ebb..5707f5c 100644
--- a/tf2onnx/optimizer/back_to_back_optimizer.py
+++ b/tf2onnx/optimizer/back_to_back_optimizer.py
@@ -278,6 +278,10 @@ class BackToBackOptimizer(GraphOptimizerBase):
         if node2.type != 'Reshape':
             return []
 
+        # a 0 in the second shape refers to a dimension the first reshape creates
+        if not node2.inputs[1].is_const() or 0 in node2.inputs[1].get_tensor_value():
+            return []
+
         g.replace_inputs(node2, [node.input[0], node2.input[1]])
         g.remove_node(node.name)
         return []
-- 
2.43.0


From 3ca3e5e3d705d13ad9b73d82c762c59af6637a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:53 +0000
Subject: [PATCH 024/111] fix: no auto_pad for kernels of size 1

---
 tf2onnx/onnx_opset/nn.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/nn.py b/tf2onnx/onnx_opset/nn.py
index 15f1964..1bb386f 100644
--- a/tf2onnx/onnx_opset/nn.py
+++ b/tf2onnx/onnx_opset/nn.py
@@ -243,7 +243,9 @@ def add_padding(ctx, node, kernel_shape, strides, dilations=None, spatial=2):
                 output_shape,
             )
 
-            node.set_attr("auto_pad", "SAME_UPPER")
+            if any(dilations[i] * (kernel_shape[i] - 1) > 0 for i in range(spatial)):
+                node.set_attr("auto_pad", "SAME_UPPER")
+            # a kernel of size 1 needs no padding, with strides auto_pad might even crop
             return
 
         # Calculate paddings.
-- 
2.43.0


From 1722e1c2454183757091f6f5212bc2de328a59fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:42 +0000
Subject: [PATCH 025/111] fix: a reduction over no axes is the identity before
 opset 18

---
 tf2onnx/onnx_opset/reduction.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/tf2onnx/onnx_opset/reduction.py b/tf2onnx/onnx_opset/reduction.py
index 7978e97..839a90c 100644
--- a/tf2onnx/onnx_opset/reduction.py
+++ b/tf2onnx/onnx_opset/reduction.py
@@ -31,6 +31,13 @@ class ReduceOpBase:
         axes = axes_node.get_tensor_value()
         if np.isscalar(axes):
             axes = [axes]
+        if len(axes) == 0:
+            # onnx reduces all axes if axes is empty, tf none
+            ctx.remove_input(node, node.input[1], 1)
+            for name in list(node.attr.keys()):
+                del node.attr[name]
+            node.type = "Identity"
+            return
         input_shape = ctx.get_shape(node.input[0])
         if input_shape is None:
             if any([val < 0 for val in axes]) and ctx.opset < 11:
@@ -133,6 +140,15 @@ class AllAny:
         if np.isscalar(reduce_dim):
             reduce_dim = [reduce_dim]
 
+        if len(reduce_dim) == 0:
+            # onnx reduces all axes if axes is empty, tf none
+            shapes = node.output_shapes
+            dtypes = node.output_dtypes
+            ctx.remove_node(node.name)
+            ctx.make_node(op_type="Identity", inputs=[node.input[0]],
+                          name=node.name, outputs=node.output, shapes=shapes, dtypes=dtypes)
+            return
+
         if ctx.opset < 11:
             inp_rank = ctx.get_rank(node.input[0])
             if inp_rank is not None:
-- 
2.43.0


From d67311fdc5fcbd58d0b866fa32e0abd784ffa85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:11 +0000
Subject: [PATCH 026/111] fix: Cumprod with a negative or run-time axis

---
 tf2onnx/onnx_opset/math.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/onnx_opset/math.py b/tf2onnx/onnx_opset/math.py
index 9c49dad..d51fde2 100644
--- a/tf2onnx/onnx_opset/math.py
+++ b/tf2onnx/onnx_opset/math.py
@@ -566,11 +566,17 @@ class CumProd:
         is_axis_const = axis_node.is_const()
         if is_axis_const: # we can compute axis value right now
             axis = axis_node.get_tensor_value()
+            if axis < 0:
+                axis += len(ctx.get_shape(node.input[0]))
             axis_node = ctx.make_const(utils.make_name("axis"), np.array([axis], dtype=np.int64))
         else:
             axis_node = ctx.make_node("Cast", inputs=[axis_node.output[0]], attr={"to": onnx_pb.TensorProto.INT64},
                                       op_name_scope=node.name, outputs=[utils.make_name("axis")])
             axis_node = GraphBuilder(ctx).make_unsqueeze({'data': axis_node.output[0], 'axes': [0]}, return_node=True)
+            rank_node = ctx.make_const(utils.make_name("rank"), np.array([len(ctx.get_shape(node.input[0]))], np.int64))
+            # Mod takes the sign of the divisor, so this maps a negative axis to the positive one
+            axis_node = ctx.make_node("Mod", inputs=[axis_node.output[0], rank_node.output[0]],
+                                      op_name_scope=node.name, outputs=[utils.make_name("axis")])
             axis = axis_node.output[0]
 
         input_rank = len(ctx.get_shape(node.input[0]))
@@ -745,10 +751,10 @@ class CumProd:
                                                outputs=[utils.make_name("post_repeat")], op_name_scope=base_name)
 
             pre_pad_node = graph.make_node("Tile", inputs=[zero_node.output[0], axis], op_name_scope=base_name,
-                                           attr={"axis": 0}, outputs=[utils.make_name("pre_pad")])
+                                           outputs=[utils.make_name("pre_pad")])
 
             post_pad_node = graph.make_node("Tile", inputs=[zero_node.output[0], post_repeat_node.output[0]],
-                                            attr={"axis": 0}, outputs=[utils.make_name("post_pad")],
+                                            outputs=[utils.make_name("post_pad")],
                                             op_name_scope=base_name)
 
         pads_node = graph.make_node("Concat", attr={"axis": 0}, outputs=[utils.make_name("pads")],
-- 
2.43.0


From 6d363faca52848eec621c107b0a7e49bf6215657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:32 +0000
Subject: [PATCH 027/111] fix: segment reductions with empty segments or
 negative ids

---
 tf2onnx/onnx_opset/reduction.py | 57 ++++++++++++++++++++++++---------
 1 file changed, 42 insertions(+), 15 deletions(-)

diff --git a/tf2onnx/onnx_opset/reduction.py b/tf2onnx/onnx_opset/reduction.py
index 839a90c..2a284cd 100644
--- a/tf2onnx/onnx_opset/reduction.py
+++ b/tf2onnx/onnx_opset/reduction.py
@@ -215,6 +215,7 @@ class SegmentSum():
         node_inputs = node.input.copy()
         num_segments_specified = False
         num_segs_const = None
+        unsorted = node.type.startswith("Unsorted")
         if node.type.endswith("WithNumSegments") or node.type.startswith("Unsorted"):
             num_segments_specified = True
             num_segments = node_inputs.pop()
@@ -259,20 +260,33 @@ class SegmentSum():
         elif node.type == "SegmentMax":
             onnx_op = "ReduceMax"
             if data_is_float:
-                identity_value = np.array('-inf', dtype=data_np_dtype)
+                # tf starts from the lowest finite value when the segments are unsorted
+                identity_value = np.array(np.finfo(data_np_dtype).min if unsorted else '-inf', dtype=data_np_dtype)
             else:
-                identity_value = np.iinfo(data_np_dtype).min
+                identity_value = np.array(np.iinfo(data_np_dtype).min, dtype=data_np_dtype)
         elif node.type == "SegmentMin":
             onnx_op = "ReduceMin"
             if data_is_float:
-                identity_value = np.array('inf', dtype=data_np_dtype)
+                identity_value = np.array(np.finfo(data_np_dtype).max if unsorted else 'inf', dtype=data_np_dtype)
             else:
-                identity_value = np.iinfo(data_np_dtype).max
+                identity_value = np.array(np.iinfo(data_np_dtype).max, dtype=data_np_dtype)
 
         if not num_segments_specified:
             max_segment = GraphBuilder(ctx).make_reduce_max({"data": segment_inp, "axes": [0], "keepdims": 0})
             one_const = ctx.make_const(utils.make_name("const_one"), np.array(1, dtype=seg_np_dtype))
             num_segments = ctx.make_node("Add", [max_segment, one_const.output[0]]).output[0]
+        drop_negative = False
+        if unsorted:
+            const_segs = node.inputs[1].get_tensor_value(as_list=False) if node.inputs[1].is_const() else None
+            drop_negative = const_segs is None or bool(np.any(const_segs < 0))
+        if drop_negative:
+            # tf ignores entries with a negative segment id: collect them in an extra segment that is cut off later
+            zero_seg = ctx.make_const(utils.make_name("const_zero"), np.array(0, dtype=seg_np_dtype)).output[0]
+            one_seg = ctx.make_const(utils.make_name("const_one"), np.array(1, dtype=seg_np_dtype)).output[0]
+            is_negative = ctx.make_node("Less", [segment_inp, zero_seg]).output[0]
+            segment_inp = ctx.make_node("Where", [is_negative, num_segments, segment_inp]).output[0]
+            kept_segments_unsq = GraphBuilder(ctx).make_unsqueeze({'data': num_segments, 'axes': [0]})
+            num_segments = ctx.make_node("Add", [num_segments, one_seg]).output[0]
         num_segments_unsq = GraphBuilder(ctx).make_unsqueeze({'data': num_segments, 'axes': [0]})
 
         seg_shape = ctx.make_node("Shape", [segment_inp]).output[0]
@@ -287,7 +301,8 @@ class SegmentSum():
 
         max_cnt = GraphBuilder(ctx).make_reduce_max({"data": seg_cnts_sorted, "axes": [0], "keepdims": True})
 
-        if node.type in ["SegmentMean", "SegmentSqrtN"]:
+        empty_is_zero = node.type in ["SegmentMax", "SegmentMin"] and not unsorted
+        if node.type in ["SegmentMean", "SegmentSqrtN"] or empty_is_zero:
             zero_tensor = helper.make_tensor("value", onnx_pb.TensorProto.INT64, dims=[1], vals=[0])
             if num_segs_const is not None:
                 zeros = ctx.make_const(utils.make_name("zeros"), np.zeros([num_segs_const], np.int64)).output[0]
@@ -296,6 +311,7 @@ class SegmentSum():
             seg_cnts = ctx.make_node("ScatterElements", [zeros, seg_values, seg_cnts_sorted],
                                      attr={'axis': 0}).output[0]
             seg_cnts_float = ctx.make_node("Cast", [seg_cnts], attr={'to': data_dtype}).output[0]
+        per_segment = None
         if node.type == "SegmentMean":
             scaling_amt = seg_cnts_float
         elif node.type == "SegmentSqrtN":
@@ -303,11 +319,13 @@ class SegmentSum():
         else:
             scaling_amt = None
 
-        if scaling_amt is not None and num_segments_specified:
-            # If empty segments are possible, we must avoid division by zero
-            const_one_float = ctx.make_const(utils.make_name("const_one_float"), np.array(1, dtype=np.float32))
-            scaling_amt = ctx.make_node("Max", [scaling_amt, const_one_float.output[0]]).output[0]
-
+        if scaling_amt is not None:
+            # Segments can be empty, we must avoid division by zero
+            const_one_float = ctx.make_const(utils.make_name("const_one_float"), np.array(1, dtype=data_np_dtype))
+            per_segment = ctx.make_node("Max", [scaling_amt, const_one_float.output[0]]).output[0]
+        elif empty_is_zero:
+            const_zero_data = ctx.make_const(utils.make_name("const_zero_data"), np.array(0, dtype=data_np_dtype))
+            per_segment = seg_cnts
 
         zero_const_int64 = ctx.make_const(utils.make_name("const_zero"), np.array(0, dtype=np.int64)).output[0]
         one_const_int64 = ctx.make_const(utils.make_name("const_one"), np.array(1, dtype=np.int64)).output[0]
@@ -341,7 +359,7 @@ class SegmentSum():
         else:
             reduction_result = GraphBuilder(ctx)._make_reduce_op(
                 onnx_op, 18, {"data": data_grid, "axes": [1], "keepdims": False}, op_name_scope=node.name)
-        if scaling_amt is not None:
+        if per_segment is not None:
             if data_rank is None:
                 # Left pad scale to match data rank
                 data_slice_rank = ctx.make_node("Shape", [identity_shape]).output[0]
@@ -349,11 +367,20 @@ class SegmentSum():
                 ones_of_shape = ctx.make_node("ConstantOfShape", [data_slice_rank], {'value': one_tensor}).output[0]
                 zero_unsq = ctx.make_const(utils.make_name('const_zero'), np.array([0], np.int64)).output[0]
                 scaling_shape = ctx.make_node("Concat", [zero_unsq, ones_of_shape], attr={'axis': 0}).output[0]
-                scaling_amt = ctx.make_node("Reshape", [scaling_amt, scaling_shape]).output[0]
+                per_segment = ctx.make_node("Reshape", [per_segment, scaling_shape]).output[0]
             elif data_rank != 1:
-                scaling_amt = GraphBuilder(ctx).make_unsqueeze(
-                    {'data': scaling_amt, 'axes': list(range(1, data_rank))})
-            reduction_result = ctx.make_node("Div", [reduction_result, scaling_amt]).output[0]
+                per_segment = GraphBuilder(ctx).make_unsqueeze(
+                    {'data': per_segment, 'axes': list(range(1, data_rank))})
+        if scaling_amt is not None:
+            reduction_result = ctx.make_node("Div", [reduction_result, per_segment]).output[0]
+        elif empty_is_zero:
+            has_entries = ctx.make_node("Cast", [per_segment], attr={'to': onnx_pb.TensorProto.BOOL}).output[0]
+            reduction_result = ctx.make_node(
+                "Where", [has_entries, reduction_result, const_zero_data.output[0]]).output[0]
+        if drop_negative:
+            zero_unsq = ctx.make_const(utils.make_name('const_zero'), np.array([0], np.int64)).output[0]
+            reduction_result = GraphBuilder(ctx).make_slice(
+                {'data': reduction_result, 'starts': zero_unsq, 'ends': kept_segments_unsq, 'axes': [0]})
 
         ctx.replace_all_inputs(node.output[0], reduction_result)
         ctx.remove_node(node.name)
-- 
2.43.0


From 708fd959852b95f1d0d0e73e3e79318889315ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:37 +0000
Subject: [PATCH 028/111] fix: round integer FloorDiv and FloorMod to the floor

---
 tf2onnx/onnx_opset/math.py | 55 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 55 insertions(+)

diff --git a/tf2onnx/onnx_opset/math.py b/tf2onnx/onnx_opset/math.py
index d51fde2..37614f2 100644
--- a/tf2onnx/onnx_opset/math.py
+++ b/tf2onnx/onnx_opset/math.py
@@ -509,6 +509,44 @@ class Erf:
         pass
 
 
+def make_floor_adjust(ctx, node):
+    """
+    Div on signed integers rounds to zero. Return x, y, x / y, the remainder and, as integer, if the remainder has
+    not the sign of y, which means that the quotient is one above the floor. Small types are done as int32.
+    """
+    dtype = ctx.get_dtype(node.input[0])
+    inputs = node.input
+    if dtype in [onnx_pb.TensorProto.INT8, onnx_pb.TensorProto.INT16]:
+        dtype = onnx_pb.TensorProto.INT32
+        inputs = [ctx.make_node("Cast", [inp], attr={"to": dtype}, op_name_scope=node.name).output[0] for inp in inputs]
+    x, y = inputs
+    zero = ctx.make_const(utils.make_name("zero"), np.array(0, utils.map_onnx_to_numpy_type(dtype))).output[0]
+    div = ctx.make_node("Div", [x, y], op_name_scope=node.name).output[0]
+    mul = ctx.make_node("Mul", [div, y], op_name_scope=node.name).output[0]
+    rem = ctx.make_node("Sub", [x, mul], op_name_scope=node.name).output[0]
+    rem_neg = ctx.make_node("Less", [rem, zero], op_name_scope=node.name).output[0]
+    y_neg = ctx.make_node("Less", [y, zero], op_name_scope=node.name).output[0]
+    sign_differs = ctx.make_node("Xor", [rem_neg, y_neg], op_name_scope=node.name).output[0]
+    is_zero = ctx.make_node("Equal", [rem, zero], op_name_scope=node.name).output[0]
+    not_zero = ctx.make_node("Not", [is_zero], op_name_scope=node.name).output[0]
+    adjust = ctx.make_node("And", [sign_differs, not_zero], op_name_scope=node.name).output[0]
+    adjust = ctx.make_node("Cast", [adjust], attr={"to": dtype}, op_name_scope=node.name).output[0]
+    return y, div, rem, adjust
+
+
+def replace_node_output(ctx, node, new_output):
+    """Remove node and produce its output from new_output."""
+    shapes = node.output_shapes
+    dtypes = node.output_dtypes
+    ctx.remove_node(node.name)
+    ctx.make_node("Cast", [new_output], attr={"to": dtypes[0]}, name=node.name, outputs=node.output,
+                  shapes=shapes, dtypes=dtypes)
+
+
+SIGNED_INTS = [onnx_pb.TensorProto.INT8, onnx_pb.TensorProto.INT16, onnx_pb.TensorProto.INT32,
+               onnx_pb.TensorProto.INT64]
+
+
 @tf_op("FloorDiv")
 class FloorDiv:
     @classmethod
@@ -523,6 +561,14 @@ class FloorDiv:
             ctx.copy_dtype(node.output[0], floor_res.output[0])
             ctx.copy_shape(node.output[0], floor_res.output[0])
 
+    @classmethod
+    def version_9(cls, ctx, node, **kwargs):
+        if ctx.get_dtype(node.input[0]) not in SIGNED_INTS:
+            cls.version_6(ctx, node, **kwargs)
+            return
+        _, div, _, adjust = make_floor_adjust(ctx, node)
+        replace_node_output(ctx, node, ctx.make_node("Sub", [div, adjust], op_name_scope=node.name).output[0])
+
 
 @tf_op("FloorMod")
 class FloorMod:
@@ -542,6 +588,15 @@ class FloorMod:
         ctx.make_node(op_type="Sub", inputs=[node.input[0], mul.output[0]],
                       name=node.name, outputs=node.output, shapes=shapes, dtypes=dtypes)
 
+    @classmethod
+    def version_9(cls, ctx, node, **kwargs):
+        if ctx.get_dtype(node.input[0]) not in SIGNED_INTS:
+            cls.version_7(ctx, node, **kwargs)
+            return
+        y, _, rem, adjust = make_floor_adjust(ctx, node)
+        y_or_zero = ctx.make_node("Mul", [y, adjust], op_name_scope=node.name).output[0]
+        replace_node_output(ctx, node, ctx.make_node("Add", [rem, y_or_zero], op_name_scope=node.name).output[0])
+
 
 @tf_op("Selu")
 class Selu:
-- 
2.43.0


From 0b5c7c20f1250855b521fcfc1b497a4a282418cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:37 +0000
Subject: [PATCH 029/111] fix: keep the sign when shifting int8 to the right

---
 tf2onnx/onnx_opset/math.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/math.py b/tf2onnx/onnx_opset/math.py
index 37614f2..064eb91 100644
--- a/tf2onnx/onnx_opset/math.py
+++ b/tf2onnx/onnx_opset/math.py
@@ -859,7 +859,8 @@ class BitShift:
         direction = dir_map[node.type]
         supported = [onnx_pb.TensorProto.UINT8, onnx_pb.TensorProto.UINT16,
                      onnx_pb.TensorProto.UINT32, onnx_pb.TensorProto.UINT64]
-        type_map = {onnx_pb.TensorProto.INT8: onnx_pb.TensorProto.UINT8,
+        # the wider type keeps the sign bits that a right shift moves in
+        type_map = {onnx_pb.TensorProto.INT8: onnx_pb.TensorProto.UINT32,
                     onnx_pb.TensorProto.INT16: onnx_pb.TensorProto.UINT32,
                     onnx_pb.TensorProto.INT32: onnx_pb.TensorProto.UINT64}
         shapes = node.output_shapes
-- 
2.43.0


From a28c2321f0a062d9ccc963d0bb6a144c616f417a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:57 +0000
Subject: [PATCH 030/111] fix: compare floats and integers by value before
 opset 11

---
 tf2onnx/onnx_opset/logical.py | 38 +++++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/tf2onnx/onnx_opset/logical.py b/tf2onnx/onnx_opset/logical.py
index a8824e9..d0ae769 100644
--- a/tf2onnx/onnx_opset/logical.py
+++ b/tf2onnx/onnx_opset/logical.py
@@ -76,7 +76,8 @@ class Equal:
     def version_7(cls, ctx, node, **kwargs):
         # T2 output = Equal(T1, x, T1 y), T1 \in {bool, int32, int64}
         need_not = node.type == "NotEqual"
-        if need_not and node.input[0] == node.input[1]:
+        floats = [TensorProto.FLOAT, TensorProto.FLOAT16, TensorProto.DOUBLE]
+        if need_not and node.input[0] == node.input[1] and ctx.get_dtype(node.input[0]) in floats:
             # The only value not equal to itself is NaN
             node.type = "IsNaN"
             ctx.replace_inputs(node, [node.input[0]])
@@ -86,8 +87,23 @@ class Equal:
             TensorProto.INT32,
             TensorProto.INT64
         ]
-        # FIXME: casting is not the same as equal
-        target_dtype = TensorProto.INT32
+        if ctx.get_dtype(node.input[0]) in floats:
+            # no float types before opset-11: values are equal if none is less than the other
+            inputs = node.input
+            less = ctx.make_node("Less", [inputs[0], inputs[1]], op_name_scope=node.name).output[0]
+            greater = ctx.make_node("Less", [inputs[1], inputs[0]], op_name_scope=node.name).output[0]
+            differ = ctx.make_node("Or", [less, greater], op_name_scope=node.name).output[0]
+            if ctx.opset >= 9:
+                for inp in inputs:
+                    is_nan = ctx.make_node("IsNaN", [inp], op_name_scope=node.name).output[0]
+                    differ = ctx.make_node("Or", [differ, is_nan], op_name_scope=node.name).output[0]
+            shapes = node.output_shapes
+            dtypes = node.output_dtypes
+            ctx.remove_node(node.name)
+            ctx.make_node("Identity" if need_not else "Not", [differ], name=node.name, outputs=node.output,
+                          shapes=shapes, dtypes=dtypes)
+            return
+        target_dtype = TensorProto.INT64 if ctx.get_dtype(node.input[0]) == TensorProto.UINT64 else TensorProto.INT32
         _add_cast_to_inputs(ctx, node, supported_dtypes, target_dtype)
         if need_not:
             node.type = "Equal"
@@ -144,11 +160,25 @@ class GreaterLess:
         target_dtype = TensorProto.FLOAT
         _add_cast_to_inputs(ctx, node, supported_dtypes, target_dtype)
 
+    @classmethod
+    def version_9(cls, ctx, node, **kwargs):
+        # starting with opset-9 integers can be compared, no need for the precision of float
+        integers = [TensorProto.INT8, TensorProto.INT16, TensorProto.INT32, TensorProto.INT64,
+                    TensorProto.UINT8, TensorProto.UINT16, TensorProto.UINT32]
+        if all(ctx.get_dtype(inp) in integers for inp in node.input):
+            # always int64 since the counter of a loop, an int32 in tensorflow, becomes an int64 later
+            _add_cast_to_inputs(ctx, node, [TensorProto.INT64], TensorProto.INT64)
+        else:
+            cls.version_7(ctx, node, **kwargs)
+
 @tf_op(["GreaterEqual", "LessEqual"])
 class GreaterLessEqual:
     @classmethod
     def version_7(cls, ctx, node, **kwargs):
-        GreaterLess.version_7(ctx, node, **kwargs)
+        if ctx.opset >= 9:
+            GreaterLess.version_9(ctx, node, **kwargs)
+        else:
+            GreaterLess.version_7(ctx, node, **kwargs)
         output_name = node.output[0]
         node.op.op_type = "Less" if node.op.op_type == "GreaterEqual" else "Greater"
         new_node = ctx.insert_new_node_on_output("Not", output_name, name=utils.make_name(node.name))
-- 
2.43.0


From d2aa319705dabcfd2d707e60c37d4f3cb5916af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:57 +0000
Subject: [PATCH 031/111] fix: Minimum, Maximum and ClipByValue of integers
 before opset 12

---
 tf2onnx/onnx_opset/math.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/tf2onnx/onnx_opset/math.py b/tf2onnx/onnx_opset/math.py
index 064eb91..0c0294a 100644
--- a/tf2onnx/onnx_opset/math.py
+++ b/tf2onnx/onnx_opset/math.py
@@ -87,6 +87,20 @@ def make_min_or_max_op(ctx, op_type, inputs, outputs,
         onnx_pb.TensorProto.FLOAT16,
         onnx_pb.TensorProto.DOUBLE
     ]
+    integers = [onnx_pb.TensorProto.INT8, onnx_pb.TensorProto.INT16, onnx_pb.TensorProto.INT32,
+                onnx_pb.TensorProto.INT64, onnx_pb.TensorProto.UINT8, onnx_pb.TensorProto.UINT16,
+                onnx_pb.TensorProto.UINT32]
+    if ctx.opset >= 9 and all(ctx.get_dtype(inp) in integers for inp in inputs):
+        # Min and Max have no integers before opset 12 and float is not precise enough to hold them, use Where
+        origin_dtype = output_dtypes[0] if output_dtypes is not None else ctx.get_dtype(inputs[0])
+        inputs = [inp if ctx.get_dtype(inp) == onnx_pb.TensorProto.INT64 else
+                  ctx.make_node("Cast", [inp], attr={"to": onnx_pb.TensorProto.INT64}).output[0] for inp in inputs]
+        result = inputs[0]
+        for inp in inputs[1:]:
+            less = ctx.make_node("Less", [result, inp]).output[0]
+            result = ctx.make_node("Where", [less, result, inp] if op_type == "Min" else [less, inp, result]).output[0]
+        return ctx.make_node("Cast", [result], attr={"to": origin_dtype}, outputs=outputs,
+                             shapes=output_shapes, dtypes=[origin_dtype])
     target_dtype = onnx_pb.TensorProto.FLOAT
     need_cast = False
     cast_inputs = []
@@ -166,6 +180,11 @@ class ClipByValueOp:
         shapes = node.output_shapes
         dtypes = node.output_dtypes
         input_dtype = ctx.get_dtype(node.input[0])
+        if input_dtype not in supported and ctx.opset >= 9:
+            ctx.remove_node(node.name)
+            upper = make_min_or_max_op(ctx, "Min", [node.input[0], node.input[2]], None, shapes, dtypes)
+            make_min_or_max_op(ctx, "Max", [upper.output[0], node.input[1]], node.output, shapes, dtypes)
+            return
         name = node.name
         min_node = node.input[1]
         if ctx.get_dtype(min_node) not in supported:
-- 
2.43.0


From 5dc8e4aed89f58aefff659152aebde203e0f8237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:03 +0000
Subject: [PATCH 032/111] fix: Select that replaces a float16 NaN

---
 tf2onnx/onnx_opset/controlflow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/controlflow.py b/tf2onnx/onnx_opset/controlflow.py
index 5247df4..b7f3aec 100644
--- a/tf2onnx/onnx_opset/controlflow.py
+++ b/tf2onnx/onnx_opset/controlflow.py
@@ -192,7 +192,7 @@ class Select:
 
         # We can't use the mul/add trick if a NaN is involved. handles_nan is added earlier in the converter.
         handles_nan = node.get_attr_value("handles_nan", False)
-        if ctx.get_dtype(node.output[0]) in [TensorProto.FLOAT, TensorProto.DOUBLE]:
+        if ctx.get_dtype(node.output[0]) in [TensorProto.FLOAT, TensorProto.FLOAT16, TensorProto.DOUBLE]:
             cond_node = node.inputs[0]
             if cond_node.type in {"IsNaN", "IsInf"}:
                 # We can't use the mul trick if Inf is involved since Inf * 0 = NaN as per IEEE 754.
-- 
2.43.0


From aaf3f036e5bc113a78f82be663ea4e483b8e5114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:04 +0000
Subject: [PATCH 033/111] fix: accumulate the updates of repeated indices in
 ScatterNd

---
 tf2onnx/onnx_opset/tensor.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index 6f2ca64..c5f933e 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -661,6 +661,13 @@ class ScatterND:
         # reorder inputs to match onnx
         ctx.replace_inputs(node, [node.input[2], node.input[0], node.input[1]])
 
+    @classmethod
+    def version_16(cls, ctx, node, **kwargs):
+        cls.version_11(ctx, node, **kwargs)
+        # updates of repeated indices accumulate
+        if ctx.get_dtype(node.output[0]) not in [TensorProto.BOOL, TensorProto.STRING]:
+            node.set_attr("reduction", 'add')
+
 
 @tf_op("TensorScatterAdd", onnx_op="ScatterND")
 class TensorScatterAdd:
-- 
2.43.0


From bf7ac9bb56f38be53d71ea770b090e3cfcb6e363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:04 +0000
Subject: [PATCH 034/111] fix: GatherV2 with batch_dims and a negative axis or
 negative batch_dims

---
 tf2onnx/onnx_opset/tensor.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index c5f933e..2cee3d3 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -470,6 +470,13 @@ class GatherV2:
         data_inp, indices_inp, axis_inp = node.input
         utils.make_sure(node.inputs[2].is_const(), "Axis of GatherV2 node must be constant")
         axis = node.inputs[2].get_tensor_value()
+        if batch_dims < 0:
+            utils.make_sure(ctx.get_rank(indices_inp) is not None, "GatherV2 with negative batch_dims requires known rank")
+            batch_dims += ctx.get_rank(indices_inp)
+            node.set_attr("batch_dims", batch_dims)
+        if axis < 0:
+            utils.make_sure(ctx.get_rank(data_inp) is not None, "GatherV2 with negative axis requires known rank")
+            axis += ctx.get_rank(data_inp)
         ctx.remove_input(node, axis_inp, 2)
         if ctx.get_dtype(indices_inp) != TensorProto.INT64:
             indices_inp = ctx.make_node("Cast", [indices_inp], attr={'to': TensorProto.INT64}).output[0]
-- 
2.43.0


From b95b2fe6496207f9b42429b86ada92f394f77eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:04 +0000
Subject: [PATCH 035/111] fix: return the result of InvertPermutation in the
 type of its input

---
 tf2onnx/onnx_opset/math.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/onnx_opset/math.py b/tf2onnx/onnx_opset/math.py
index 0c0294a..30dc606 100644
--- a/tf2onnx/onnx_opset/math.py
+++ b/tf2onnx/onnx_opset/math.py
@@ -1118,9 +1118,10 @@ class InvertPermutationOp:
 
         ctx.remove_node(node.name)
 
+        # the indices of TopK are int64
         last_node = ctx.make_node(
-            "Identity", inputs=topk_node.output[1:], name=utils.make_name(node.name + '_indices'),
-            shapes=[shape], dtypes=[onnx_dtype])
+            "Cast", inputs=topk_node.output[1:], name=utils.make_name(node.name + '_indices'),
+            attr={"to": onnx_dtype}, shapes=[shape], dtypes=[onnx_dtype])
 
         ctx.replace_all_inputs(node.output[0], last_node.output[0])  # ops=ctx.get_nodes()
 
-- 
2.43.0


From 9bf8e6fd3e464edf2878b2ead8fef6035d66425b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:04 +0000
Subject: [PATCH 036/111] fix: DynamicStitch with repeated indices

---
 tf2onnx/onnx_opset/tensor.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index 2cee3d3..9b44376 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -3198,7 +3198,16 @@ class DynamicStitch:
         expanded_indices = ctx.make_node("Expand", [unsqueezed_indices.output[0], data_shape.output[0]])
 
         zero_tensor = helper.make_tensor("value", dtype, dims=[1], vals=[0])
-        zeros_of_shape = ctx.make_node("ConstantOfShape", [data_shape.output[0]], attr={"value": zero_tensor})
+        # the indices may repeat: the result has as many rows as the highest index asks for
+        minus_one = ctx.make_const(utils.make_name("minus_one"), np.array([-1], np.int64)).output[0]
+        all_indices = ctx.make_node("Concat", [concat_indices_int64.output[0], minus_one], attr={'axis': 0}).output[0]
+        max_index = ctx.make_node("ReduceMax", [all_indices], attr={'keepdims': 1}).output[0]
+        output_shape = ctx.make_node("Sub", [max_index, minus_one]).output[0]
+        if data_rank > 1:
+            row_shape = GraphBuilder(ctx).make_slice(
+                {"data": data_shape.output[0], "axes": [0], "starts": [1], "ends": [sys.maxsize]})
+            output_shape = ctx.make_node("Concat", [output_shape, row_shape], attr={'axis': 0}).output[0]
+        zeros_of_shape = ctx.make_node("ConstantOfShape", [output_shape], attr={"value": zero_tensor})
 
         name = node.name
         outputs = node.output
-- 
2.43.0


From c3a278ab1feee7dcbe03e9468e87d08f00995bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:04 +0000
Subject: [PATCH 037/111] fix: OneHot of other types than float with an off
 value of one

---
 tf2onnx/onnx_opset/tensor.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index 9b44376..3ac35ce 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -1426,15 +1426,8 @@ class OneHot:
         node.set_attr("axis", 0)
         depth = node.inputs[1].get_tensor_value()
         on_val = node.inputs[2].get_tensor_value(as_list=False)
-        on = on_val.tolist()
-        off = node.inputs[3].get_tensor_value()
-        eye = np.eye(depth, dtype=on_val.dtype)
-        if on != 0:
-            eye[eye == 1] = on
-            eye[eye == 0] = off
-        else:
-            eye[eye == 0] = off
-            eye[eye == 1] = on
+        off_val = node.inputs[3].get_tensor_value(as_list=False)
+        eye = np.where(np.eye(depth, dtype=bool), on_val, off_val)
 
         const_name = utils.make_name(node.name)
         ctx.make_const(const_name, eye)
-- 
2.43.0


From ee8bf06b6a47332a997a422b13b5f413f48a8a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:35 +0000
Subject: [PATCH 038/111] fix: OneHot with indices that are out of range

---
 tf2onnx/onnx_opset/tensor.py | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index 3ac35ce..663abef 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -1412,6 +1412,24 @@ class Unpack:
 
 @tf_op("OneHot")
 class OneHot:
+    @classmethod
+    def replace_negative_indices(cls, ctx, node, indices, depth):
+        """A negative index selects nothing in tensorflow, but counts from the end in onnx. Replace it by depth."""
+        dtype = ctx.get_dtype(indices)
+        if ctx.opset < 9 or dtype not in [TensorProto.INT8, TensorProto.INT32, TensorProto.INT64]:
+            return indices
+        indices_node = ctx.get_node_by_output(indices)
+        if indices_node.is_const() and np.all(indices_node.get_tensor_value(as_list=False) >= 0):
+            return indices
+        if dtype != TensorProto.INT64:
+            indices = ctx.make_node("Cast", [indices], attr={"to": TensorProto.INT64}, op_name_scope=node.name).output[0]
+        zero = ctx.make_const(utils.make_name("zero"), np.array(0, np.int64)).output[0]
+        negative = ctx.make_node("Less", [indices, zero], op_name_scope=node.name).output[0]
+        if ctx.get_dtype(depth) != TensorProto.INT64:
+            depth = ctx.make_node("Cast", [depth], attr={"to": TensorProto.INT64}, op_name_scope=node.name).output[0]
+        return ctx.make_node("Where", [negative, depth, indices], op_name_scope=node.name,
+                             shapes=[ctx.get_shape(node.input[0])], dtypes=[TensorProto.INT64]).output[0]
+
     @classmethod
     def version_1(cls, ctx, node, **kwargs):
         # until there is no onehot op in onnx, a workaround using gather from eye
@@ -1427,7 +1445,16 @@ class OneHot:
         depth = node.inputs[1].get_tensor_value()
         on_val = node.inputs[2].get_tensor_value(as_list=False)
         off_val = node.inputs[3].get_tensor_value(as_list=False)
-        eye = np.where(np.eye(depth, dtype=bool), on_val, off_val)
+        # the last row is for the indices that are out of range
+        eye = np.where(np.eye(depth + 1, depth, dtype=bool), on_val, off_val)
+        indices_name = cls.replace_negative_indices(ctx, node, indices_name, node.input[1])
+        if ctx.opset >= 9 and not ctx.get_node_by_output(indices_name).is_const():
+            if ctx.get_dtype(indices_name) != TensorProto.INT64:
+                indices_name = ctx.make_node("Cast", [indices_name], attr={"to": TensorProto.INT64},
+                                             op_name_scope=node.name).output[0]
+            last = ctx.make_const(utils.make_name("last"), np.array(depth, np.int64)).output[0]
+            in_range = ctx.make_node("Less", [indices_name, last], op_name_scope=node.name).output[0]
+            indices_name = ctx.make_node("Where", [in_range, indices_name, last], op_name_scope=node.name).output[0]
 
         const_name = utils.make_name(node.name)
         ctx.make_const(const_name, eye)
@@ -1465,8 +1492,8 @@ class OneHot:
         off_value = GraphBuilder(ctx).make_unsqueeze({'data': off_value, 'axes': [0]})
         off_on_value = ctx.make_node("Concat", [off_value, on_value], attr={"axis": 0}).output[0]
 
-        indices = node.input[0]
-        indices_rank = ctx.get_rank(indices)
+        indices_rank = ctx.get_rank(node.input[0])
+        indices = cls.replace_negative_indices(ctx, node, node.input[0], node.input[1])
 
         # Add a special support for 0-rank indices, to do so we have to expand the dimension to 1
         # before the one hot encoding and remove it after.
-- 
2.43.0


From 99c57da6a5c3b68f0a0b91ee40f2c773ccab6e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:40 +0000
Subject: [PATCH 039/111] fix: SparseToDense with int32 indices and shape, and
 rank 1 indices

---
 tf2onnx/onnx_opset/tensor.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index 663abef..2f6335e 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -2573,6 +2573,14 @@ class SparseToDense:
         idx_is_scalar = idx_shape is not None and idx_shape[0] == 1
         utils.make_sure(not val_is_scalar or idx_is_scalar, "SparseToDense not implemented yet for scalar values")
 
+        # Expand and ScatterND take int64 shapes and indices, and a row per index
+        if ctx.get_dtype(out_shape) != TensorProto.INT64:
+            out_shape = ctx.insert_new_node_on_input(node, "Cast", out_shape, to=TensorProto.INT64).output[0]
+        if ctx.get_dtype(sparse_indices) != TensorProto.INT64:
+            sparse_indices = ctx.insert_new_node_on_input(
+                node, "Cast", sparse_indices, to=TensorProto.INT64).output[0]
+        if idx_shape is not None and len(idx_shape) == 1:
+            sparse_indices = GraphBuilder(ctx).make_unsqueeze({"data": sparse_indices, "axes": [1]})
         expand_node = ctx.make_node("Expand", [default_val, out_shape])
         node.type = "ScatterND"
         ctx.replace_inputs(node, [expand_node.output[0], sparse_indices, sparse_vals])
-- 
2.43.0


From 8b3948a3c6e09e158b81e4cb1155aa58a9953526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:07 +0000
Subject: [PATCH 040/111] fix: AddN of integers

---
 tf2onnx/onnx_opset/reduction.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/reduction.py b/tf2onnx/onnx_opset/reduction.py
index 2a284cd..b418448 100644
--- a/tf2onnx/onnx_opset/reduction.py
+++ b/tf2onnx/onnx_opset/reduction.py
@@ -202,7 +202,19 @@ class AllAny:
 class AddN():
     @classmethod
     def version_6(cls, ctx, node, **kwargs):
-        node.type = "Sum"
+        if ctx.get_dtype(node.output[0]) in [onnx_pb.TensorProto.FLOAT16, onnx_pb.TensorProto.FLOAT,
+                                             onnx_pb.TensorProto.DOUBLE]:
+            node.type = "Sum"
+            return
+        # Sum only takes floats
+        inputs = list(node.input)
+        shapes, dtypes, outputs = node.output_shapes, node.output_dtypes, node.output
+        ctx.remove_node(node.name)
+        total = inputs[0]
+        for inp in inputs[1:-1]:
+            total = ctx.make_node("Add", [total, inp]).output[0]
+        op_type, inputs = ("Add", [total, inputs[-1]]) if len(inputs) > 1 else ("Identity", inputs)
+        ctx.make_node(op_type, inputs, name=node.name, outputs=outputs, shapes=shapes, dtypes=dtypes)
 
 
 @tf_op(["SegmentSum", "SegmentProd", "SegmentMax", "SegmentMin", "SegmentMean",
-- 
2.43.0


From 7debc60b21d8c93cdde598a0be9d1bb91f6c7501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:07 +0000
Subject: [PATCH 041/111] fix: SegmentMean of integers at opset 11

---
 tf2onnx/onnx_opset/reduction.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/onnx_opset/reduction.py b/tf2onnx/onnx_opset/reduction.py
index b418448..28bf231 100644
--- a/tf2onnx/onnx_opset/reduction.py
+++ b/tf2onnx/onnx_opset/reduction.py
@@ -333,8 +333,15 @@ class SegmentSum():
 
         if scaling_amt is not None:
             # Segments can be empty, we must avoid division by zero
-            const_one_float = ctx.make_const(utils.make_name("const_one_float"), np.array(1, dtype=data_np_dtype))
-            per_segment = ctx.make_node("Max", [scaling_amt, const_one_float.output[0]]).output[0]
+            # Max takes floats only before opset 12
+            via_float = data_is_int and ctx.opset < 12
+            if via_float:
+                scaling_amt = ctx.make_node("Cast", [scaling_amt], attr={"to": onnx_pb.TensorProto.FLOAT}).output[0]
+            const_one = ctx.make_const(utils.make_name("const_one"),
+                                       np.array(1, dtype=np.float32 if via_float else data_np_dtype))
+            per_segment = ctx.make_node("Max", [scaling_amt, const_one.output[0]]).output[0]
+            if via_float:
+                per_segment = ctx.make_node("Cast", [per_segment], attr={"to": ctx.get_dtype(data_inp)}).output[0]
         elif empty_is_zero:
             const_zero_data = ctx.make_const(utils.make_name("const_zero_data"), np.array(0, dtype=data_np_dtype))
             per_segment = seg_cnts
-- 
2.43.0


From cba31256aa4a06906f78eb463750784b7df7e6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:07 +0000
Subject: [PATCH 042/111] fix: DivNoNan before opset 11

---
 tf2onnx/onnx_opset/math.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/math.py b/tf2onnx/onnx_opset/math.py
index 30dc606..3b9bd5b 100644
--- a/tf2onnx/onnx_opset/math.py
+++ b/tf2onnx/onnx_opset/math.py
@@ -355,7 +355,12 @@ class DivNoNan:
         node.type = "Div"
         np_dtype = utils.map_onnx_to_numpy_type(ctx.get_dtype(node.input[1]))
         zero_const = ctx.make_const(utils.make_name("const_zero"), np.array(0, np_dtype)).output[0]
-        is_zero = ctx.make_node("Equal", [node.input[1], zero_const]).output[0]
+        if ctx.opset < 11:
+            # Equal does not take floats
+            non_zero = ctx.make_node("Cast", [node.input[1]], attr={'to': onnx_pb.TensorProto.BOOL}).output[0]
+            is_zero = ctx.make_node("Not", [non_zero]).output[0]
+        else:
+            is_zero = ctx.make_node("Equal", [node.input[1], zero_const]).output[0]
         where_node = ctx.make_node("Where", [is_zero, zero_const, node.output[0]])
         ctx.insert_node_on_output(where_node, node.output[0])
 
-- 
2.43.0


From e98702488b1f867de80d1e2088b0c435b20fd1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:07 +0000
Subject: [PATCH 043/111] fix: Pad of integers with a constant value before
 opset 11

---
 tf2onnx/onnx_opset/nn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/nn.py b/tf2onnx/onnx_opset/nn.py
index 1bb386f..28356ac 100644
--- a/tf2onnx/onnx_opset/nn.py
+++ b/tf2onnx/onnx_opset/nn.py
@@ -918,7 +918,7 @@ class Pad:
 
         if mode in [None, "constant"] and len(node.input) == 3:
             const_val = node.inputs[2].get_tensor_value()
-            node.set_attr("value", const_val)
+            node.set_attr("value", float(const_val))
             ctx.remove_input(node, node.input[2], 2)
 
         ctx.remove_input(node, node.input[1], 1)
-- 
2.43.0


From 5e8e1e54eb27a42a42a8a65d242ead321e3a20f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:07 +0000
Subject: [PATCH 044/111] fix: MatrixDiagPart of other ranks than 3

---
 tf2onnx/onnx_opset/tensor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index 2f6335e..4b5cf2c 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -3261,8 +3261,8 @@ class MatrixDiagPart:
     @classmethod
     def any_version(cls, opset, ctx, node, **kwargs):
         # MatrixDiagPart by slice and gather
-        minus_two_one, minus_two, minus_one, zeo, zeo_zeo, one, two, two_one = \
-            [n.output[0] for n in ctx.make_consts([[-2, -1], [-2], [-1], [0], [0, 0], [1], [2], [2, 1]])]
+        minus_two_one, minus_two, minus_one, zeo, zeo_zeo, one, two = \
+            [n.output[0] for n in ctx.make_consts([[-2, -1], [-2], [-1], [0], [0, 0], [1], [2]])]
         zeo_, one_ = [n.output[0] for n in ctx.make_consts([0, 1])]
 
         input_shape = ctx.make_node('Shape', [node.input[0]])
@@ -3277,7 +3277,7 @@ class MatrixDiagPart:
         min_matrice_dim = ctx.make_node('Cast', [min_matrice_dim_float.output[0]], attr={'to': TensorProto.INT64})
         double_matrice_dim = ctx.make_node('Concat', [min_matrice_dim.output[0], min_matrice_dim.output[0]],
                                            attr={'axis': -1})
-        sliced_input = ctx.make_node('Slice', [node.input[0], zeo_zeo, double_matrice_dim.output[0], two_one])
+        sliced_input = ctx.make_node('Slice', [node.input[0], zeo_zeo, double_matrice_dim.output[0], minus_two_one])
         sliced_input_shape = ctx.make_node('Shape', [sliced_input.output[0]])
         sliced_input_shape_half = ctx.make_node('Slice', [sliced_input_shape.output[0], zeo,
                                                           minus_one])
-- 
2.43.0


From ae0eaee3e80b8892d49fe9e4cd2943e54cb3c8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:07 +0000
Subject: [PATCH 045/111] fix: MatrixBandPart with a negative run-time number
 of diagonals

---
 tf2onnx/onnx_opset/nn.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tf2onnx/onnx_opset/nn.py b/tf2onnx/onnx_opset/nn.py
index 28356ac..27e7ce1 100644
--- a/tf2onnx/onnx_opset/nn.py
+++ b/tf2onnx/onnx_opset/nn.py
@@ -1802,6 +1802,10 @@ class MatrixBandPart:
                 num_upper = ctx.make_node("Cast", [num_upper], attr={'to': TensorProto.INT64}).output[0]
             greater = ctx.make_node("Greater", [idx_diff, num_upper]).output[0]
             less_or_equal = ctx.make_node("Not", [greater])
+            if num_upper_const is None:
+                # a negative number keeps the whole triangle
+                unbounded = ctx.make_node("Less", [num_upper, zero_const]).output[0]
+                less_or_equal = ctx.make_node("Or", [unbounded, less_or_equal.output[0]])
             conditions.append(less_or_equal)
         if num_lower_const is None or num_lower_const >= 0:
             if ctx.get_dtype(num_lower) != TensorProto.INT64:
@@ -1809,6 +1813,9 @@ class MatrixBandPart:
             num_lower_neg = ctx.make_node("Neg", [num_lower]).output[0]
             greater = ctx.make_node("Greater", [num_lower_neg, idx_diff]).output[0]
             less_or_equal = ctx.make_node("Not", [greater])
+            if num_lower_const is None:
+                unbounded = ctx.make_node("Less", [num_lower, zero_const]).output[0]
+                less_or_equal = ctx.make_node("Or", [unbounded, less_or_equal.output[0]])
             conditions.append(less_or_equal)
         if len(conditions) == 0:
             node.type = "Identity"
-- 
2.43.0


From 947c27f79ebb617fe61e76385bc42209a87fa971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:07 +0000
Subject: [PATCH 046/111] fix: SpaceToBatchND of integers before opset 11

---
 tf2onnx/onnx_opset/tensor.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index 4b5cf2c..6fe9c07 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -1824,7 +1824,14 @@ class SpaceToBatch:
                 pads = [0, 0, top, left,
                         0, 0, bottom, right]
                 if ctx.opset <= 10:
-                    pad_op = ctx.make_node("Pad", trans1.output, attr={"pads": pads})
+                    float_types = [TensorProto.FLOAT16, TensorProto.FLOAT, TensorProto.DOUBLE]
+                    if dtypes[0] in float_types:
+                        pad_op = ctx.make_node("Pad", trans1.output, attr={"pads": pads})
+                    else:
+                        # Pad takes floats only
+                        pad_op = ctx.make_node("Cast", trans1.output, attr={"to": TensorProto.DOUBLE})
+                        pad_op = ctx.make_node("Pad", pad_op.output, attr={"pads": pads})
+                        pad_op = ctx.make_node("Cast", pad_op.output, attr={"to": dtypes[0]})
                 else:
                     new_pads = ctx.make_const(name=utils.make_name("pads"), np_val=np.array(pads, dtype=np.int64))
                     pad_op = ctx.make_node("Pad", [trans1.output[0], new_pads.output[0]])
-- 
2.43.0


From 88bea5fc8dbff841394b1232f0b51b897f881848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:23 +0000
Subject: [PATCH 047/111] fix: MatrixSetDiag with several diagonals

---
 tf2onnx/onnx_opset/tensor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index 6fe9c07..6bc0893 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -4092,6 +4092,8 @@ class MatrixSetDiagV3:
 
         # make matrix of bool
         ctx.set_dtype(ones_diag.output[0], TensorProto.INT64)
+        ones_diag = ctx.make_node("Reshape", [ones_diag.output[0], mknode("Shape", [diag])],
+                                  shapes=[ctx.get_shape(diag)], dtypes=[TensorProto.INT64])
         ones_matrix = ctx.make_node("MatrixDiagV3", [ones_diag.output[0], k, row, col, zeo], attr,
                                     shapes=[ctx.get_shape(x)], dtypes=[ctx.get_dtype(x)])
         MatrixDiag.version_12(ctx, ones_matrix)
-- 
2.43.0


From f3fc402d16f61734132205b9eddcef532764438c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:23 +0000
Subject: [PATCH 048/111] fix: MatrixSetDiag uses the standard Range

---
 tf2onnx/onnx_opset/tensor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index 6bc0893..420a782 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -3397,8 +3397,10 @@ class MatrixDiagPartV2V3:
                                                    shape_processed_shape.output[0]])
         abs_k = body_graph.make_node('Abs', [current_k.output[0]])
 
-        range_k = body_graph.make_node('Range', [abs_k.output[0], new_width.output[0], one],
-                                       domain="com.microsoft", dtypes=[TensorProto.INT64])
+        range_start, range_end, range_step = [
+            GraphBuilder(body_graph).make_squeeze({'data': name, 'axes': [0]})
+            for name in [abs_k.output[0], new_width.output[0], one]]
+        range_k = body_graph.make_node('Range', [range_start, range_end, range_step], dtypes=[TensorProto.INT64])
         sliced_range = body_graph.make_node('Slice', [range_k.output[0], zeo, new_depth.output[0]])
         sliced_shape = body_graph.make_node('Shape', [sliced_range.output[0]])
         pad_length = body_graph.make_node('Sub', [new_depth.output[0], sliced_shape.output[0]])
-- 
2.43.0


From 9f08398af257afe29e89108f934b0dc30b91ae82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:06 +0000
Subject: [PATCH 049/111] fix: Pad of other types with a constant value

---
 tf2onnx/onnx_opset/nn.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tf2onnx/onnx_opset/nn.py b/tf2onnx/onnx_opset/nn.py
index 27e7ce1..be1bf0a 100644
--- a/tf2onnx/onnx_opset/nn.py
+++ b/tf2onnx/onnx_opset/nn.py
@@ -967,6 +967,9 @@ class Pad:
             cast_node = ctx.insert_new_node_on_input(node, "Cast", node.input[0], to=TensorProto.FLOAT)
             ctx.set_dtype(cast_node.output[0], TensorProto.FLOAT)
             ctx.copy_shape(node.name, cast_node.output[0])
+            if len(node.input) > 2:
+                # the value must have the type of the data
+                ctx.insert_new_node_on_input(node, "Cast", node.input[2], to=TensorProto.FLOAT)
 
             cast_back_node = ctx.insert_new_node_on_output("Cast", node.output[0],
                                                            name=utils.make_name(node.name) + "_castback",
-- 
2.43.0


From ff2a39d7e396a3c3fc090b493e9cba7faed77c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:28 +0000
Subject: [PATCH 050/111] fix: Gemm is not used for an addend of higher rank

---
 tf2onnx/rewriter/gemm_rewriter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tf2onnx/rewriter/gemm_rewriter.py b/tf2onnx/rewriter/gemm_rewriter.py
index d06c7e0..502d12b 100644
--- a/tf2onnx/rewriter/gemm_rewriter.py
+++ b/tf2onnx/rewriter/gemm_rewriter.py
@@ -91,6 +91,8 @@ def rewrite_gemm(g, ops):
                 if a_mul_b_shape is None: continue
                 if -1 in c_shape + a_mul_b_shape: continue
                 if g.get_rank(a_edge_name) != 2 or g.get_rank(b_edge_name) != 2: continue
+                # the result of Gemm has rank 2
+                if len(c_shape) > 2 or g.get_rank(add_node.output[0]) != 2: continue
                 compatible = True
                 for i in range(1, len(c_shape) + 1):
                     if c_shape[-i] not in [1, a_mul_b_shape[-i]]:
-- 
2.43.0


From c292270f7d74a56516a170576ce32beff5d83b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:28 +0000
Subject: [PATCH 051/111] fix: Gemm scale factors of shape [1, 1]

---
 tf2onnx/rewriter/gemm_rewriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/rewriter/gemm_rewriter.py b/tf2onnx/rewriter/gemm_rewriter.py
index 502d12b..e7f6e47 100644
--- a/tf2onnx/rewriter/gemm_rewriter.py
+++ b/tf2onnx/rewriter/gemm_rewriter.py
@@ -117,7 +117,7 @@ def get_gemm_attr(match):
         arg_op = match.get_op(arg)
         if arg_op is not None:
             match_args = arg_op.get_tensor_value()
-            if isinstance(match_args, list):
+            while isinstance(match_args, list):
                 if len(match_args) != 1:
                     return attr, False
                 match_args = match_args[0]
-- 
2.43.0


From 49326a6dd35120c12dfab7d69a4fdb7e252011bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:28 +0000
Subject: [PATCH 052/111] fix: adjoint matmul of integers

---
 tf2onnx/onnx_opset/math.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/onnx_opset/math.py b/tf2onnx/onnx_opset/math.py
index 3b9bd5b..afbc8d9 100644
--- a/tf2onnx/onnx_opset/math.py
+++ b/tf2onnx/onnx_opset/math.py
@@ -405,8 +405,8 @@ class MatMul:
         if any(attrs_val[2:]):
             # conjugation operation on complex data not supported in onnx for now
             # so if it's complex than raise exception
-            if dtype not in [onnx_pb.TensorProto.FLOAT, onnx_pb.TensorProto.FLOAT16, onnx_pb.TensorProto.DOUBLE]:
-                raise ValueError("dtype " + dtype + " is not supported in onnx matmul for now")
+            if dtype in [onnx_pb.TensorProto.COMPLEX64, onnx_pb.TensorProto.COMPLEX128]:
+                raise ValueError("dtype " + str(dtype) + " is not supported in onnx matmul for now")
 
         transpose_a = (attrs_val[0] + attrs_val[2] + attrs_val[4]) % 2
         transpose_b = (attrs_val[1] + attrs_val[3] + attrs_val[5]) % 2
-- 
2.43.0


From bf0a038445eae7e30372d9419566a352e6bb75d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:28 +0000
Subject: [PATCH 053/111] fix: transposed operands of unknown rank in matmul

---
 tf2onnx/onnx_opset/math.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/tf2onnx/onnx_opset/math.py b/tf2onnx/onnx_opset/math.py
index afbc8d9..fe57e73 100644
--- a/tf2onnx/onnx_opset/math.py
+++ b/tf2onnx/onnx_opset/math.py
@@ -395,6 +395,7 @@ class MatMul:
     def version_1(cls, ctx, node, **kwargs):
         # tensorflow allows transpose and conjugated. If found, insert the required transpose.
         # We could use Gemm as well but tensorflow does not pass bias in matmul.
+        default_rank = 2 if node.type == "MatMul" else None
         if node.type != "MatMulInteger": node.type = "MatMul"
 
         attrs = ["transpose_a", "transpose_b", "adjoint_a", "adjoint_b", "adj_x", "adj_y"]
@@ -412,28 +413,28 @@ class MatMul:
         transpose_b = (attrs_val[1] + attrs_val[3] + attrs_val[5]) % 2
 
         if transpose_a != 0:
-            shape = ctx.get_shape(node.input[0])
-            if shape:
-                perm = list(range(0, len(shape)))
-                tmp = perm[-1]
-                perm[-1] = perm[-2]
-                perm[-2] = tmp
-                ctx.insert_new_node_on_input(node, "Transpose", node.input[0], input_index=0, perm=perm)
+            perm = cls.swap_last_dims(ctx, node.input[0], default_rank)
+            ctx.insert_new_node_on_input(node, "Transpose", node.input[0], input_index=0, perm=perm)
 
         if transpose_b != 0:
-            shape = ctx.get_shape(node.input[1])
-            if shape:
-                perm = list(range(0, len(shape)))
-                tmp = perm[-1]
-                perm[-1] = perm[-2]
-                perm[-2] = tmp
-                ctx.insert_new_node_on_input(node, "Transpose", node.input[1], input_index=1, perm=perm)
+            perm = cls.swap_last_dims(ctx, node.input[1], default_rank)
+            ctx.insert_new_node_on_input(node, "Transpose", node.input[1], input_index=1, perm=perm)
 
         unsupported = ["a_is_sparse", "b_is_sparse"]
         for i in unsupported:
             val = node.get_attr(i)
             if val is not None and val.i != 0:
                 raise ValueError(node.type + " attribute " + i + " is not supported")
+
+    @classmethod
+    def swap_last_dims(cls, ctx, name, default_rank):
+        """Permutation that transposes the matrices in a tensor"""
+        rank = ctx.get_rank(name)
+        if rank is None:
+            rank = default_rank
+        utils.make_sure(rank is not None, "cannot transpose %s: unknown rank", name)
+        return list(range(rank - 2)) + [rank - 1, rank - 2]
+
     @classmethod
     def version_10(cls, ctx, node, **kwargs):
         if (ctx.get_dtype(node.input[0]) in [onnx_pb.TensorProto.INT8, onnx_pb.TensorProto.UINT8] and
-- 
2.43.0


From 67523c81483123fec77591914b7a4880535447fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:57 +0000
Subject: [PATCH 054/111] fix: BiasAddV1 always adds to the last dimension

---
 tf2onnx/onnx_opset/nn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/nn.py b/tf2onnx/onnx_opset/nn.py
index be1bf0a..285a24a 100644
--- a/tf2onnx/onnx_opset/nn.py
+++ b/tf2onnx/onnx_opset/nn.py
@@ -823,7 +823,7 @@ class BiasAdd:
         common.BroadcastOp.version_6(ctx, node, **kwargs)
 
         # on NHWC, bias will broadcast from largest dim, which is default onnx Add op broadcast behavior.
-        if not node.is_nhwc():
+        if node.get_attr("data_format") is not None and not node.is_nhwc():
             # however, in NCHW, bias should be at 2nd dim, which by default onnx Add op has no way to know,
             # so it needs being reshaped into 3-dim tensor before add
             shape0 = ctx.get_shape(node.input[0])
-- 
2.43.0


From 772fffda9f3685c8380f01508686442afd389dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:57 +0000
Subject: [PATCH 055/111] fix: BiasAdd in NCHW with unknown rank

---
 tf2onnx/onnx_opset/nn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/nn.py b/tf2onnx/onnx_opset/nn.py
index 285a24a..499683f 100644
--- a/tf2onnx/onnx_opset/nn.py
+++ b/tf2onnx/onnx_opset/nn.py
@@ -828,7 +828,8 @@ class BiasAdd:
             # so it needs being reshaped into 3-dim tensor before add
             shape0 = ctx.get_shape(node.input[0])
             shape1 = ctx.get_shape(node.input[1])
-            if shape0 is not None and len(shape0) > 2:
+            utils.make_sure(shape0 is not None, "BiasAdd in NCHW requires a known rank")
+            if len(shape0) > 2:
                 new_broadcast_shape = [shape1[0] if shape1 else -1] + [1] * (len(shape0) - 2)
                 shape_name = utils.make_name(node.name)
                 ctx.make_const(shape_name, np.array(new_broadcast_shape, dtype=np.int64))
-- 
2.43.0


From 6485a181c6538d73d9a0bc16c72000e2deb90787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:57 +0000
Subject: [PATCH 056/111] fix: upper case einsum labels

---
 tf2onnx/onnx_opset/math.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/math.py b/tf2onnx/onnx_opset/math.py
index fe57e73..44cb2ca 100644
--- a/tf2onnx/onnx_opset/math.py
+++ b/tf2onnx/onnx_opset/math.py
@@ -6,6 +6,7 @@ math
 """
 
 import logging
+import string
 
 import numpy as np
 from onnx import onnx_pb
@@ -926,7 +927,16 @@ class Einsum:
     @classmethod
     def version_12(cls, ctx, node, **kwargs):
         del node.attr["N"]
-        node.attr["equation"].s = node.attr["equation"].s.lower()
+        equation = node.attr["equation"].s.decode()
+        output = equation.split("->")[-1] if "->" in equation else ""
+        utils.make_sure(all(output.count(c) == 1 for c in output if c.isalpha()), "einsum repeats a label in its output")
+        # upper case labels are different labels, use free lower case ones for them
+        free = [c for c in string.ascii_lowercase if c not in equation]
+        upper = sorted(set(c for c in equation if c.isupper()))
+        utils.make_sure(len(upper) <= len(free), "einsum has too many labels")
+        for c in upper:
+            equation = equation.replace(c, free.pop(0))
+        node.attr["equation"].s = equation.encode()
         def should_replace_with_matmul():
             # True is 2nd inp is const and eqn is ...ik,kj->...ij (possibly transpose 2nd inp)
             # When the 2nd input is const, ort pre-packs the Matmul but not Einsum so this is faster
-- 
2.43.0


From 59062a4c3059e7b7212d130db51e6de0fd8cd776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:57 +0000
Subject: [PATCH 057/111] fix: ReduceSum of a decomposed einsum before opset 13

---
 tf2onnx/optimizer/einsum_optimizer.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tf2onnx/optimizer/einsum_optimizer.py b/tf2onnx/optimizer/einsum_optimizer.py
index 0b2eab4..572d167 100644
--- a/tf2onnx/optimizer/einsum_optimizer.py
+++ b/tf2onnx/optimizer/einsum_optimizer.py
@@ -621,10 +621,14 @@ class EinsumSubOp:
         name = self._get_data(names, inp)
         axes = self.kwargs['axes']
         name_axes = self._onnx_name() + '_axes'
-        yield numpy_helper.from_array(
-            np.array(axes, dtype=np.int64), name=name_axes)
-        yield helper.make_node(
-            'ReduceSum', [name, name_axes], [self._onnx_name()], keepdims=1)
+        if opset >= 13:
+            yield numpy_helper.from_array(
+                np.array(axes, dtype=np.int64), name=name_axes)
+            yield helper.make_node(
+                'ReduceSum', [name, name_axes], [self._onnx_name()], keepdims=1)
+        else:
+            yield helper.make_node(
+                'ReduceSum', [name], [self._onnx_name()], keepdims=1, axes=axes)
 
     def _to_onnx_mul(self, data, opset):
         self._check_inputs_(2)
-- 
2.43.0


From 6176125e60e611b13fa12cfeac8f06b9b454723f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:57 +0000
Subject: [PATCH 058/111] fix: decomposed einsum with a scalar operand

---
 tf2onnx/optimizer/einsum_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/optimizer/einsum_optimizer.py b/tf2onnx/optimizer/einsum_optimizer.py
index 572d167..2de61a5 100644
--- a/tf2onnx/optimizer/einsum_optimizer.py
+++ b/tf2onnx/optimizer/einsum_optimizer.py
@@ -1385,7 +1385,7 @@ def analyse_einsum_equation(equation):
         p & \\text{p is position of letter j in equation i}
         \\end{array}\\right.
     """
-    spl = equation.strip(' ,').split("->")
+    spl = equation.strip(' ').split("->")
     if len(spl) != 2 or len(spl[1]) == 0 or len(spl[0]) == 0:
         raise NotImplementedError(
             "The function only implements the case when there are "
-- 
2.43.0


From e959d4f6f2914291157b4d91559020d324feb7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:41 +0000
Subject: [PATCH 059/111] fix: flatten pattern with the shape of another tensor

---
 tf2onnx/rewriter/flatten_rewriter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tf2onnx/rewriter/flatten_rewriter.py b/tf2onnx/rewriter/flatten_rewriter.py
index fac9263..f135e21 100644
--- a/tf2onnx/rewriter/flatten_rewriter.py
+++ b/tf2onnx/rewriter/flatten_rewriter.py
@@ -64,6 +64,9 @@ def rewrite_flatten(g, ops):
                                np.array_equal(list(input_shape), list(slice_node.inputs[0].get_tensor_value()))
                 if not need_rewrite:
                     continue
+            elif slice_node.inputs[0].input[0] != reshape_node.input[0]:
+                # the batch dimension has to be the one of the reshaped tensor
+                continue
 
             begin = slice_node.inputs[1].get_tensor_value(as_list=False)
             end = slice_node.inputs[2].get_tensor_value(as_list=False)
-- 
2.43.0


From 65e032cba0d86dc37eef2671d0f9a752ac6fc49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:41 +0000
Subject: [PATCH 060/111] fix: leaky relu pattern with a slope tensor or
 integers

---
 tf2onnx/rewriter/leakyrelu_rewriter.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tf2onnx/rewriter/leakyrelu_rewriter.py b/tf2onnx/rewriter/leakyrelu_rewriter.py
index ec42294..48ae92f 100644
--- a/tf2onnx/rewriter/leakyrelu_rewriter.py
+++ b/tf2onnx/rewriter/leakyrelu_rewriter.py
@@ -5,10 +5,14 @@
 tf2onnx.rewriter - rewrite tensorflow subgraph to onnx leakyrelu op
 """
 
+from onnx import TensorProto
+
 from tf2onnx.graph_matcher import GraphMatcher, OpTypePattern
 
 # pylint: disable=missing-docstring
 
+FLOAT_TYPES = [TensorProto.FLOAT, TensorProto.FLOAT16, TensorProto.DOUBLE]
+
 
 def rewrite_leakyrelu(g, ops):
     if g.opset < 6:
@@ -32,6 +36,9 @@ def rewrite_leakyrelu(g, ops):
         max_input_edge_name = match.get_tensor('max_input')
         mul_input_edge_name = match.get_tensor('mul_input')
         if max_input_edge_name == mul_input_edge_name:
+            # LeakyRelu has one slope and takes floats only
+            if not match.get_op("alpha").is_scalar() or g.get_dtype(max_node.output[0]) not in FLOAT_TYPES:
+                continue
             alpha = match.get_op("alpha").get_tensor_value()
             if alpha >= 1:
                 continue
-- 
2.43.0


From 7175573ed9f39c7989dcc7cd5098e026c871e31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:41 +0000
Subject: [PATCH 061/111] fix: thresholded relu pattern with swapped
 comparison, a threshold tensor or integers

---
 tf2onnx/rewriter/thresholded_relu_rewriter.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/rewriter/thresholded_relu_rewriter.py b/tf2onnx/rewriter/thresholded_relu_rewriter.py
index d0cfa12..23dcc33 100644
--- a/tf2onnx/rewriter/thresholded_relu_rewriter.py
+++ b/tf2onnx/rewriter/thresholded_relu_rewriter.py
@@ -5,10 +5,14 @@
 tf2onnx.rewriter - rewrite tensorflow subgraph to onnx ThresholdedRelu op
 """
 
+from onnx import TensorProto
+
 from tf2onnx.graph_matcher import GraphMatcher, OpTypePattern
 
 # pylint: disable=missing-docstring
 
+FLOAT_TYPES = [TensorProto.FLOAT, TensorProto.FLOAT16, TensorProto.DOUBLE]
+
 
 def rewrite_thresholded_relu(g, ops):
     if g.opset < 10:
@@ -20,7 +24,7 @@ def rewrite_thresholded_relu(g, ops):
                 OpTypePattern('Greater', name='greater', inputs=[
                     OpTypePattern('*', name='greater_input'),
                     OpTypePattern('Const', name='theta')
-                ])
+                ], allow_reorder=False)
             ]),
             OpTypePattern('*', name='mul_input')
         ])
@@ -34,6 +38,9 @@ def rewrite_thresholded_relu(g, ops):
         greater_input_edge_name = match.get_tensor('greater_input')
         mul_input_edge_name = match.get_tensor('mul_input')
         if greater_input_edge_name == mul_input_edge_name:
+            # ThresholdedRelu has one threshold and takes floats only
+            if not match.get_op('theta').is_scalar() or g.get_dtype(mul_node.output[0]) not in FLOAT_TYPES:
+                continue
             theta = match.get_op('theta').get_tensor_value()
             thresholded_relu = g.make_node("ThresholdedRelu", inputs=[mul_input_edge_name], attr={"alpha": theta},
                                            shapes=[g.get_shape(mul_node.output[0])],
-- 
2.43.0


From d28adb76dbb150a1f4eebf4182bc220c3c06e94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:41 +0000
Subject: [PATCH 062/111] fix: transpose pattern with another permutation

---
 tf2onnx/rewriter/transpose_rewriter.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/rewriter/transpose_rewriter.py b/tf2onnx/rewriter/transpose_rewriter.py
index 4ea83a6..71af9a9 100644
--- a/tf2onnx/rewriter/transpose_rewriter.py
+++ b/tf2onnx/rewriter/transpose_rewriter.py
@@ -10,13 +10,23 @@ from tf2onnx.graph_matcher import GraphMatcher, OpTypePattern
 # pylint: disable=missing-docstring
 
 
+def is_reversed_range(last, rng):
+    """Check for (n - 1) - range(0, n, 1)."""
+    def const_is(node, val):
+        return node.is_scalar() and node.get_tensor_value() == val
+    n, limit = last.inputs[0], rng.inputs[1]
+    same = last.input[0] == rng.input[1] or \
+        n.is_scalar() and limit.is_scalar() and n.get_tensor_value() == limit.get_tensor_value()
+    return same and const_is(last.inputs[1], 1) and const_is(rng.inputs[0], 0) and const_is(rng.inputs[2], 1)
+
+
 def rewrite_transpose(g, ops):
     pattern = \
         OpTypePattern('Transpose', name='output', inputs=[
             OpTypePattern(None),
             OpTypePattern('Sub', inputs=[
-                OpTypePattern('Sub', inputs=["*", "*"]),
-                OpTypePattern('Range', inputs=["*", "*", "*"]),
+                OpTypePattern('Sub', name='last', inputs=["*", "*"]),
+                OpTypePattern('Range', name='range', inputs=["*", "*", "*"]),
             ]),
         ])
 
@@ -25,6 +35,8 @@ def rewrite_transpose(g, ops):
     for match in match_results:
         output = match.get_op('output')
         shape = g.get_shape(output.input[0])
+        if shape is None or not is_reversed_range(match.get_op('last'), match.get_op('range')):
+            continue
         dims = range(len(shape) - 1, -1, -1)
         output.set_attr("perm", dims)
         g.remove_input(output, output.input[1], 1)
-- 
2.43.0


From 901451b22b09c9177ef6c29479dd0722813298e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:41 +0000
Subject: [PATCH 063/111] fix: layer norm pattern with a swapped difference

---
 tf2onnx/rewriter/layer_normalization_rewriter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tf2onnx/rewriter/layer_normalization_rewriter.py b/tf2onnx/rewriter/layer_normalization_rewriter.py
index a0e5e1c..10fabee 100644
--- a/tf2onnx/rewriter/layer_normalization_rewriter.py
+++ b/tf2onnx/rewriter/layer_normalization_rewriter.py
@@ -43,7 +43,7 @@ def rewrite_layer_normalization(g, ops):
                     inner_pattern,
                     OpTypePattern('*', name='scale')
                 ]),
-                OpTypePattern('Sub', inputs=[
+                OpTypePattern('Sub', allow_reorder=False, inputs=[
                     OpTypePattern('*', name='input_r3'),
                     OpTypePattern('Mean', name='mean_r2')
                 ])
@@ -55,7 +55,7 @@ def rewrite_layer_normalization(g, ops):
             OpTypePattern('Mul', name='scale_mul', inputs=[
                 OpTypePattern('Mul', inputs=[
                     inner_pattern,
-                    OpTypePattern('Sub', inputs=[
+                    OpTypePattern('Sub', allow_reorder=False, inputs=[
                         OpTypePattern('*', name='input_r3'),
                         OpTypePattern('Mean', name='mean_r2')
                     ])
@@ -69,7 +69,7 @@ def rewrite_layer_normalization(g, ops):
             OpTypePattern('Mul', name='scale_mul', inputs=[
                 OpTypePattern('Mul', inputs=[
                     OpTypePattern('*', name='scale'),
-                    OpTypePattern('Sub', inputs=[
+                    OpTypePattern('Sub', allow_reorder=False, inputs=[
                         OpTypePattern('*', name='input_r3'),
                         OpTypePattern('Mean', name='mean_r2')
                     ])
-- 
2.43.0


From 6dd889f374073723135551c3cddb70c1170f438b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:41 +0000
Subject: [PATCH 064/111] fix: dilated convolution pattern with strides,
 dilations or shared intermediates

---
 tf2onnx/rewriter/conv_dilations_rewriter.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tf2onnx/rewriter/conv_dilations_rewriter.py b/tf2onnx/rewriter/conv_dilations_rewriter.py
index d162c8d..cb55d72 100644
--- a/tf2onnx/rewriter/conv_dilations_rewriter.py
+++ b/tf2onnx/rewriter/conv_dilations_rewriter.py
@@ -72,6 +72,15 @@ def rewrite_conv_dilations(g, ops):
 
             if conv.get_attr_value("padding") != b"VALID":
                 continue
+            if any(v != 1 for name in ["strides", "dilations"] for v in conv.get_attr_value(name, [])):
+                continue
+            num_block_dims = 1 if is_conv_1d else len(conv.get_attr_value("strides")) - 2
+            if len(block_shape1) != num_block_dims:
+                continue
+            # the nodes are changed in place, nobody else can use their results
+            inner_nodes = [expand, conv, squeeze] if is_conv_1d else [conv]
+            if any(n.output[0] in g.outputs or len(g.find_output_consumers(n.output[0])) != 1 for n in inner_nodes):
+                continue
 
             if space_to_batch.inputs[2].is_const() and batch_to_space.inputs[2].is_const():
                 paddings = space_to_batch.inputs[2].get_tensor_value(as_list=True)
-- 
2.43.0


From cc5b518a3eb595f1bc7de402cffd1e292480ead1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:52 +0000
Subject: [PATCH 065/111] fix: removing the producers of a pattern node that is
 still in use

---
 tf2onnx/graph.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/tf2onnx/graph.py b/tf2onnx/graph.py
index ae3d695..6e7a299 100644
--- a/tf2onnx/graph.py
+++ b/tf2onnx/graph.py
@@ -1607,12 +1607,14 @@ class Graph(object):
     def safe_remove_nodes(self, to_delete):
         """Delete nodes in `to_delete` without third-party node consuming it."""
         delete_set = set(to_delete)
+        while True:
+            # a node that has to stay needs its own inputs to stay, too
+            safe_set = set(self.safe_to_remove_nodes(delete_set))
+            if safe_set == delete_set:
+                break
+            delete_set = safe_set
         for n in delete_set:
-            out_consumers = set()
-            for out in n.output:
-                out_consumers |= set(self.find_output_consumers(out))
-            if out_consumers.issubset(delete_set):
-                self.remove_node(n.name)
+            self.remove_node(n.name)
 
     def is_safe_to_remove_nodes(self, to_delete, outputs_to_ignore=None):
         """Returns true if the outputs of all the nodes in to_delete have no third-party nodes consuming them."""
-- 
2.43.0


From 2a5df0ca56d0d28d68dc1ff3feaacfeacbaef6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:00 +0000
Subject: [PATCH 066/111] fix: random uniform pattern with another offset or
 bounds that are no scalars

---
 tf2onnx/rewriter/random_uniform.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/rewriter/random_uniform.py b/tf2onnx/rewriter/random_uniform.py
index 3c68f6e..0aa27c1 100644
--- a/tf2onnx/rewriter/random_uniform.py
+++ b/tf2onnx/rewriter/random_uniform.py
@@ -28,6 +28,9 @@ def rewrite_random_uniform(g, ops):
         input2 = match.get_op('input2')
         output = match.get_op('output')
         ru_op = match.get_op('input1')
+        # the offset has to be the lower bound, and the bounds scalars
+        if output.input[1] != input2.input[1] or not all(inp.is_scalar() for inp in input2.inputs):
+            continue
         # max is on input 0
         tmax = input2.inputs[0].get_tensor_value()
         tmin = input2.inputs[1].get_tensor_value()
@@ -55,7 +58,8 @@ def rewrite_random_uniform_fold_const(g, ops):
         output = match.get_op('output')
         mul = match.get_op('mul')
         ru_op = match.get_op('input1')
-
+        if not mul.inputs[1].is_scalar() or not output.inputs[1].is_scalar():
+            continue
         tmax_minus_tmin = mul.inputs[1].get_tensor_value()
         tmin = output.inputs[1].get_tensor_value()
         tmax = tmin + tmax_minus_tmin
-- 
2.43.0


From c53ca61eb7e376fbd2154ee817936187a67ca0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:00 +0000
Subject: [PATCH 067/111] fix: random normal pattern with a mean or deviation
 that is no scalar

---
 tf2onnx/rewriter/random_normal_rewriter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tf2onnx/rewriter/random_normal_rewriter.py b/tf2onnx/rewriter/random_normal_rewriter.py
index 2dac0a1..cb2e5ee 100644
--- a/tf2onnx/rewriter/random_normal_rewriter.py
+++ b/tf2onnx/rewriter/random_normal_rewriter.py
@@ -43,6 +43,8 @@ def rewrite_random_normal(g, ops):
                 continue
             if output.type == 'Add' and input2.type == 'Mul':
                 # pattern 1
+                if not output.inputs[1].is_scalar() or not input2.inputs[1].is_scalar():
+                    continue
                 mean = output.inputs[1].get_tensor_value()
                 scale = input2.inputs[1].get_tensor_value()
             else:
-- 
2.43.0


From 21387b05f55fa2a4f45ed7b093fb90569a801763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:00 +0000
Subject: [PATCH 068/111] fix: dropout pattern with a ratio that is no
 probability

---
 tf2onnx/rewriter/dropout_rewriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/rewriter/dropout_rewriter.py b/tf2onnx/rewriter/dropout_rewriter.py
index d46ea92..25be3d0 100644
--- a/tf2onnx/rewriter/dropout_rewriter.py
+++ b/tf2onnx/rewriter/dropout_rewriter.py
@@ -73,7 +73,7 @@ def rewrite_dropout(g, ops):
                 continue
 
             #The scaling constant should be 1/(1-ratio), otherwise this isn't truly a dropout node
-            if not np.allclose([1], [scaling_constant * (1 - ratio)]):
+            if not 0 <= ratio < 1 or not np.allclose([1], [scaling_constant * (1 - ratio)]):
                 logger.warning("Scaling constant %f for dropout pattern rooted at %s is inconsistent with dropout "
                                "ratio %f. The pattern will not be replaced with an ONNX dropout node.",
                                scaling_constant, outputs.name, ratio)
-- 
2.43.0


From ad3388f517f0ae860c1cac142675feb46118ada7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:00 +0000
Subject: [PATCH 069/111] fix: quantize and dequantize with other than 8 bits

---
 tf2onnx/rewriter/quantization_ops_rewriter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tf2onnx/rewriter/quantization_ops_rewriter.py b/tf2onnx/rewriter/quantization_ops_rewriter.py
index d094746..d700056 100644
--- a/tf2onnx/rewriter/quantization_ops_rewriter.py
+++ b/tf2onnx/rewriter/quantization_ops_rewriter.py
@@ -37,6 +37,11 @@ def create_qdq_nodes(g, match_results):
         if not signed_input:
             min_quantized, max_quantized = [0, 255]
 
+        num_bits = qdq_node.get_attr_value('num_bits', 8)
+        if qdq_node.type == "QuantizeAndDequantizeV3":
+            num_bits = qdq_node.inputs[3].get_tensor_value() if qdq_node.inputs[3].is_const() else None
+        utils.make_sure(num_bits == 8, "%s %s: only 8 bits are supported", qdq_node.type, qdq_node.name)
+
         # Get axis attribute for per channel implementation.
         axis = qdq_node.get_attr_value('axis', -1)
         q_attrs = {}
-- 
2.43.0


From edaf09d19841e867d49728be2c6d7222a876f06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:00 +0000
Subject: [PATCH 070/111] fix: quantize and dequantize with a narrow range

---
 tf2onnx/rewriter/quantization_ops_rewriter.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/rewriter/quantization_ops_rewriter.py b/tf2onnx/rewriter/quantization_ops_rewriter.py
index d700056..ecdbd28 100644
--- a/tf2onnx/rewriter/quantization_ops_rewriter.py
+++ b/tf2onnx/rewriter/quantization_ops_rewriter.py
@@ -119,8 +119,19 @@ def create_qdq_nodes(g, match_results):
             scale = g.make_const(name=utils.make_name("quant_scale"), np_val=cast_scale).output[0]
             zero_point = g.make_const(utils.make_name("zero_point"), zero_point_np).output[0]
 
+        quant_input = qdq_node.input[0]
+        if range_given and signed_input and narrow_range:
+            # QuantizeLinear saturates at -128
+            lowest = (min_quantized * cast_scale).astype(np.float32)
+            if cast_scale.ndim > 0:
+                inp_rank = g.get_rank(quant_input)
+                utils.make_sure(inp_rank is not None, "Input rank cannot be unknown for qdq op %s", qdq_node.name)
+                lowest = lowest.reshape([-1 if i == axis % inp_rank else 1 for i in range(inp_rank)])
+            lowest_const = g.make_const(utils.make_name("lowest"), lowest).output[0]
+            quant_input = g.make_node("Max", [quant_input, lowest_const], shapes=[qdq_node_output_shape],
+                                      dtypes=[qdq_node_output_dtype]).output[0]
         quant_node = g.make_node(op_type="QuantizeLinear",
-                                 inputs=[qdq_node.input[0], scale, zero_point],
+                                 inputs=[quant_input, scale, zero_point],
                                  shapes=[qdq_node_output_shape],
                                  attr=q_attrs,
                                  dtypes=[quantized_dtype],
-- 
2.43.0


From be87e136b9ba911c44bc44e5769aa77525933daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:28 +0000
Subject: [PATCH 071/111] fix: layer norm pattern on other float types

---
 tf2onnx/rewriter/layer_normalization_rewriter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/rewriter/layer_normalization_rewriter.py b/tf2onnx/rewriter/layer_normalization_rewriter.py
index 10fabee..df357fe 100644
--- a/tf2onnx/rewriter/layer_normalization_rewriter.py
+++ b/tf2onnx/rewriter/layer_normalization_rewriter.py
@@ -110,8 +110,9 @@ def rewrite_layer_normalization(g, ops):
                 shape = g.make_node("Shape", [inp]).output[0]
                 dim_2_shape = GraphBuilder(g).make_slice(
                     {"data": shape, "ends": [2], "starts": [1], "axes": [0]})
-                zero_tensor = helper.make_tensor("value", TensorProto.FLOAT, dims=[1], vals=[0])
-                one_tensor = helper.make_tensor("value", TensorProto.FLOAT, dims=[1], vals=[1])
+                dtype = g.get_dtype(inp) or TensorProto.FLOAT
+                zero_tensor = helper.make_tensor("value", dtype, dims=[1], vals=[0])
+                one_tensor = helper.make_tensor("value", dtype, dims=[1], vals=[1])
                 zeros_of_shape = g.make_node("ConstantOfShape", [dim_2_shape], attr={'value': zero_tensor}).output[0]
                 ones_of_shape = g.make_node("ConstantOfShape", [dim_2_shape], attr={'value': one_tensor}).output[0]
                 norm = g.make_node("InstanceNormalization", [inp, ones_of_shape, zeros_of_shape],
-- 
2.43.0


From 16f2faf0ffa4fba2dd3fafea3f3552c6d08a4bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:28 +0000
Subject: [PATCH 072/111] fix: eye pattern with batch dimensions, another
 diagonal or another background

---
 tf2onnx/rewriter/eye_rewriter.py | 70 ++++++++++++++++++++------------
 1 file changed, 45 insertions(+), 25 deletions(-)

diff --git a/tf2onnx/rewriter/eye_rewriter.py b/tf2onnx/rewriter/eye_rewriter.py
index b2e3066..ed46432 100644
--- a/tf2onnx/rewriter/eye_rewriter.py
+++ b/tf2onnx/rewriter/eye_rewriter.py
@@ -13,6 +13,17 @@ from tf2onnx.graph_matcher import GraphMatcher, OpTypePattern
 # pylint: disable=invalid-name,unused-argument,missing-docstring, unused-variable
 
 
+def is_main_diagonal(node):
+    """Check that a MatrixDiag or MatrixSetDiag node deals with the main diagonal of a square matrix or a given one."""
+    def const_is(inp, val):
+        return inp.is_const() and (inp.get_tensor_value(as_list=False) == val).all()
+    if node.type == "MatrixDiagV3":
+        return const_is(node.inputs[1], 0) and const_is(node.inputs[2], -1) and const_is(node.inputs[3], -1)
+    if node.type == "MatrixSetDiagV3":
+        return const_is(node.inputs[2], 0)
+    return True
+
+
 def rewrite_eye(g, ops):
     # schema of eye is eye(num_rows, num_columns=None), if num_columns not specified then it's equal to num_rows
     # tf.eye is implemented by a sub_graph which contains op "MatrixDiag" or "MatrixSetDiag" while
@@ -26,10 +37,10 @@ def rewrite_eye(g, ops):
         return g.get_nodes()
 
     pattern1 = \
-        OpTypePattern("MatrixDiag", name="output_eye_matrix", inputs=[
+        OpTypePattern("MatrixDiag", name="output_eye_matrix", allow_reorder=False, inputs=[
             OpTypePattern("Fill", inputs=[
                 OpTypePattern("Const", name="fill_value"),
-                OpTypePattern("ConcatV2", inputs=[
+                OpTypePattern("ConcatV2", name="diag_shape", inputs=[
                     "*",
                     "*",
                     OpTypePattern("Pack", inputs=[
@@ -39,11 +50,11 @@ def rewrite_eye(g, ops):
             ])
         ])
     pattern2 = \
-        OpTypePattern("MatrixSetDiag", name="output_eye_matrix", inputs=[
+        OpTypePattern("MatrixSetDiag", name="output_eye_matrix", allow_reorder=False, inputs=[
             OpTypePattern("Fill"),
             OpTypePattern("Fill", inputs=[
                 OpTypePattern("Const", name="fill_value"),
-                OpTypePattern("ConcatV2", inputs=[
+                OpTypePattern("ConcatV2", name="diag_shape", inputs=[
                     "*",
                     "*",
                     OpTypePattern("Pack", inputs=[
@@ -53,9 +64,9 @@ def rewrite_eye(g, ops):
             ])
         ])
     pattern3 = \
-        OpTypePattern("MatrixDiag", name="output_eye_matrix", inputs=[
+        OpTypePattern("MatrixDiag", name="output_eye_matrix", allow_reorder=False, inputs=[
             OpTypePattern("Fill", inputs=[
-                OpTypePattern("ConcatV2", inputs=[
+                OpTypePattern("ConcatV2", name="diag_shape", inputs=[
                     "*",
                     OpTypePattern("ExpandDims", inputs=[
                         OpTypePattern("Minimum|Cast", name="min_or_cast"),
@@ -67,10 +78,10 @@ def rewrite_eye(g, ops):
             ])
         ])
     pattern4 = \
-        OpTypePattern("MatrixSetDiag", name="output_eye_matrix", inputs=[
+        OpTypePattern("MatrixSetDiag", name="output_eye_matrix", allow_reorder=False, inputs=[
             OpTypePattern("Fill"),
             OpTypePattern("Fill", inputs=[
-                OpTypePattern("ConcatV2", inputs=[
+                OpTypePattern("ConcatV2", name="diag_shape", inputs=[
                     "*",
                     OpTypePattern("ExpandDims", inputs=[
                         OpTypePattern("Minimum|Cast", name="min_or_cast"),
@@ -82,9 +93,9 @@ def rewrite_eye(g, ops):
             ]),
         ])
     pattern5 = \
-        OpTypePattern("MatrixDiagV3", name="output_eye_matrix", inputs=[
+        OpTypePattern("MatrixDiagV3", name="output_eye_matrix", allow_reorder=False, inputs=[
             OpTypePattern("Fill", inputs=[
-                OpTypePattern("ConcatV2", inputs=[
+                OpTypePattern("ConcatV2", name="diag_shape", inputs=[
                     "*",
                     OpTypePattern("ExpandDims", inputs=[
                         OpTypePattern("Minimum|Cast", name="min_or_cast"),
@@ -97,10 +108,10 @@ def rewrite_eye(g, ops):
             "*", "*", "*", "*",
         ])
     pattern6 = \
-        OpTypePattern("MatrixSetDiagV3", name="output_eye_matrix", inputs=[
+        OpTypePattern("MatrixSetDiagV3", name="output_eye_matrix", allow_reorder=False, inputs=[
             OpTypePattern("Fill"),
             OpTypePattern("Fill", inputs=[
-                OpTypePattern("ConcatV2", inputs=[
+                OpTypePattern("ConcatV2", name="diag_shape", inputs=[
                     "*",
                     OpTypePattern("ExpandDims", inputs=[
                         OpTypePattern("Minimum|Cast", name="min_or_cast"),
@@ -112,7 +123,7 @@ def rewrite_eye(g, ops):
             ]), "*"
         ])
     pattern7 = \
-        OpTypePattern("MatrixDiag", name="output_eye_matrix", inputs=[
+        OpTypePattern("MatrixDiag", name="output_eye_matrix", allow_reorder=False, inputs=[
             OpTypePattern("Fill", inputs=[
                 OpTypePattern("Reshape", inputs=[
                     OpTypePattern("Minimum|Cast", name="min_or_cast"),
@@ -122,7 +133,7 @@ def rewrite_eye(g, ops):
             ])
         ])
     pattern8 = \
-        OpTypePattern("MatrixSetDiag", name="output_eye_matrix", inputs=[
+        OpTypePattern("MatrixSetDiag", name="output_eye_matrix", allow_reorder=False, inputs=[
             OpTypePattern("Fill"),
             OpTypePattern("Fill", inputs=[
                 OpTypePattern("Reshape", inputs=[
@@ -148,23 +159,32 @@ def rewrite_eye(g, ops):
             else:
                 continue
 
-            num_rows = min_node.inputs[0]
-            num_columns = min_node.inputs[1]
-
             old_output = match_result.get_op("output_eye_matrix")
+            diag_shape = match_result.get_op("diag_shape")
+            if diag_shape is not None:
+                # EyeLike makes 2-D tensors only: no batch dimensions
+                min_index = [i for i, inp in enumerate(diag_shape.inputs) if inp.type in ["Pack", "ExpandDims"]]
+                batch_shapes = [inp for i, inp in enumerate(diag_shape.inputs[:-1]) if i not in min_index]
+                if not all(inp.is_const() and inp.get_tensor_value(as_list=False).size == 0 for inp in batch_shapes):
+                    continue
+            if not is_main_diagonal(old_output):
+                continue
+            if old_output.type.startswith("MatrixSetDiag"):
+                # the diagonal is set in a matrix of zeros
+                zeros = old_output.inputs[0]
+                if not zeros.inputs[1].is_const() or zeros.inputs[1].get_tensor_value() != 0:
+                    continue
+                matrix_shape = zeros.input[0]
+            else:
+                num_rows = GraphBuilder(g).make_unsqueeze({"axes": [0], "data": min_node.output[0]})
+                matrix_shape = g.make_node("Concat", [num_rows, num_rows], attr={"axis": 0}).output[0]
+
             output_dtypes = [g.get_dtype(old_output.output[0])]
             output_shapes = [g.get_shape(old_output.output[0])]
             g.remove_node(old_output.name)
 
-            # onnx op "EyeLike" need a 2D tensor, so generate it
-
-            num_rows = GraphBuilder(g).make_unsqueeze(
-                {"axes": [0], "data": num_rows.output[0]}, return_node=True)
-            num_columns = GraphBuilder(g).make_unsqueeze(
-                {"axes": [0], "data": num_columns.output[0]}, return_node=True)
-            matrix_shape = g.make_node("Concat", [num_rows.output[0], num_columns.output[0]], attr={"axis": 0})
             # cast nodes added for "ConstantOfShape" in ONNX only accepts int64 data.
-            matrix_shape_int64 = g.make_node("Cast", matrix_shape.output, attr={"to": onnx_pb.TensorProto.INT64})
+            matrix_shape_int64 = g.make_node("Cast", [matrix_shape], attr={"to": onnx_pb.TensorProto.INT64})
             zero_matrix = g.make_node("ConstantOfShape", matrix_shape_int64.output)
 
             g.make_node("EyeLike", zero_matrix.output, attr={"dtype": output_dtypes[0]},
-- 
2.43.0


From c4efa05f495912b8130ab5776af3e7c510ead19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:28 +0000
Subject: [PATCH 073/111] fix: dilated convolution pattern with unrelated crops

---
 tf2onnx/rewriter/conv_dilations_rewriter.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/tf2onnx/rewriter/conv_dilations_rewriter.py b/tf2onnx/rewriter/conv_dilations_rewriter.py
index cb55d72..2076abd 100644
--- a/tf2onnx/rewriter/conv_dilations_rewriter.py
+++ b/tf2onnx/rewriter/conv_dilations_rewriter.py
@@ -100,6 +100,9 @@ def rewrite_conv_dilations(g, ops):
                 pad_mode = determine_pad_mode(space_to_batch.inputs[2])
                 if pad_mode is None:
                     continue
+                # what the paddings round up has to be cropped again
+                if find_round_up(space_to_batch.inputs[2]) is not find_round_up(batch_to_space.inputs[2]):
+                    continue
 
             if is_conv_1d:
                 block_shape1 = [1] + block_shape1
@@ -128,6 +131,17 @@ def rewrite_conv_dilations(g, ops):
 
     return g.get_nodes()
 
+def find_round_up(node):
+    """Find the FloorMod the paddings or crops come from."""
+    while node.type != "FloorMod":
+        non_const = [inp for inp in node.inputs if not inp.is_const()]
+        if not non_const:
+            return None
+        node = non_const[0] if node.type not in ["Add", "AddV2"] or len(non_const) == 1 else \
+            next((inp for inp in non_const if inp.type == "FloorMod"), non_const[0])
+    return node
+
+
 def determine_pad_mode(paddings_inp_node):
     tensor_ops = set(["Concat", "ConcatV2", "ConcatV3", "StridedSlice", "Pack", "ExpandDims", "Identity"])
     while paddings_inp_node.type in tensor_ops:
-- 
2.43.0


From bdaa937a756fb9e7dc8440a70e4686adb3fda8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:24 +0000
Subject: [PATCH 074/111] fix: MatrixDiag of one diagonal per matrix of a batch

---
 tf2onnx/onnx_opset/tensor.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index 420a782..6107e4c 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -3750,7 +3750,11 @@ class MatrixDiag:
             k_max = GraphBuilder(ctx).make_reduce_max({"data": k})
             k_max_nxt = mknode("Add", [k_max, one])
             k_depth = mknode("Sub", [k_max_nxt, k_min])
-            equal = mknode("Equal", [k_depth, diag_depth])
+            if diag != node.input[0]:
+                equal = mknode("Equal", [k_depth, diag_depth])
+            else:
+                # a single diagonal comes without the dimension of the diagonals
+                equal = mknode("Greater", [k_depth, one])
 
             def id_diag():
                 g = ctx.create_new_graph_with_same_config()
-- 
2.43.0


From c388bf2625cbdcbba66f8ca8994267dac150f2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:54 +0000
Subject: [PATCH 075/111] fix: layer norm pattern whose mean or variance does
 not keep its dimensions

---
 tf2onnx/rewriter/layer_normalization_rewriter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/rewriter/layer_normalization_rewriter.py b/tf2onnx/rewriter/layer_normalization_rewriter.py
index df357fe..1bf1995 100644
--- a/tf2onnx/rewriter/layer_normalization_rewriter.py
+++ b/tf2onnx/rewriter/layer_normalization_rewriter.py
@@ -20,7 +20,7 @@ def rewrite_layer_normalization(g, ops):
     inner_pattern = \
         OpTypePattern('Rsqrt', inputs=[
             OpTypePattern('Add', inputs=[
-                OpTypePattern('Mean', allow_reorder=False, inputs=[
+                OpTypePattern('Mean', name='variance', allow_reorder=False, inputs=[
                     OpTypePattern('Square', inputs=[
                         OpTypePattern('Sub', allow_reorder=False, inputs=[
                             OpTypePattern('*', name='input'),
@@ -102,6 +102,9 @@ def rewrite_layer_normalization(g, ops):
                 variance_axes = [a % rank for a in variance_axes]
                 if mean_axes != [2] or variance_axes != [2]:
                     continue
+                if not all(match.get_op(m).get_attr_value('keep_dims', 0) for m in ('mean', 'variance')):
+                    # without the reduced dimensions the mean would broadcast along another axis
+                    continue
                 epsilon = match.get_op('epsilon').get_tensor_value(as_list=False).flatten().tolist()
                 if len(epsilon) != 1:
                     continue
-- 
2.43.0


From 51afa8901861ca8bc6f9ef53a806ef78d8423156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:06 +0000
Subject: [PATCH 076/111] fix: channel-first output whose tensor has other
 consumers

---
 tf2onnx/tfonnx.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/tfonnx.py b/tf2onnx/tfonnx.py
index 6e4d5ee..2629f2d 100644
--- a/tf2onnx/tfonnx.py
+++ b/tf2onnx/tfonnx.py
@@ -342,9 +342,9 @@ def transpose_outputs(ctx, outputs_as_nchw):
                     continue
                 # insert transpose
                 op_name = utils.make_name(node.name)
-                transpose = ctx.insert_new_node_on_output("Transpose", node.input[0], name=op_name)
+                transpose = ctx.insert_new_node_on_input(node, "Transpose", node.input[0], name=op_name)
                 transpose.set_attr("perm", constants.NHWC_TO_NCHW)
-                ctx.copy_shape(node.output[0], transpose.output[0])
+                ctx.copy_dtype(node.output[0], transpose.output[0])
                 ctx.set_shape(transpose.output[0], np.array(shape)[constants.NHWC_TO_NCHW])
                 ctx.set_shape(output_name, np.array(shape)[constants.NHWC_TO_NCHW])
                 ops.append(transpose)
-- 
2.43.0


From 64107a576f7f089e21fcf42799fc9ed493465abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:43 +0000
Subject: [PATCH 077/111] fix: size of a resize by a ratio that float32 rounds
 down

---
 tf2onnx/onnx_opset/nn.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/tf2onnx/onnx_opset/nn.py b/tf2onnx/onnx_opset/nn.py
index 499683f..7c19db6 100644
--- a/tf2onnx/onnx_opset/nn.py
+++ b/tf2onnx/onnx_opset/nn.py
@@ -1423,16 +1423,17 @@ class Resize:
         roi = ctx.make_const(utils.make_name("roi"), np.array([]).astype(np.float32))
         input_nchw = ctx.make_node("Transpose", [node.input[0]], {"perm": constants.NHWC_TO_NCHW})
         shape = ctx.get_shape(node.input[0])
+        scale_val = None
         if shape and shape[2] != -1 and shape[1] != -1 and node.inputs[1].is_const():
             target_shape = node.inputs[1].get_tensor_value()
             n, h, w, c = shape
             nh, nw = target_shape
-            if "sizes" in node.attr:
-                sizes_val = np.array([1.0, 1.0, nh, nw]).astype(np.int64)
-                resize_params = ctx.make_const(utils.make_name("sizes"), sizes_val, raw=False)
-            else:  # scales
-                scale_val = np.array([1.0, 1.0, float(nh) / h, float(nw) / w]).astype(np.float32)
-                resize_params = ctx.make_const(utils.make_name("scales"), scale_val, raw=False)
+            scale_val = np.array([1.0, 1.0, float(nh) / h, float(nw) / w]).astype(np.float32)
+            if [int(np.float32(h) * scale_val[2]), int(np.float32(w) * scale_val[3])] != [nh, nw]:
+                # the rounded scale would lead to another size
+                scale_val = None
+        if scale_val is not None:
+            resize_params = ctx.make_const(utils.make_name("scales"), scale_val, raw=False)
             resize_inputs = [
                 input_nchw.output[0],
                 roi.output[0],
-- 
2.43.0


From af03495aaaa068d8f4436a88b02daac85bc1e020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:15 +0000
Subject: [PATCH 078/111] fix: size of a resize by a ratio that float32 rounds
 down before opset 11

---
 tf2onnx/onnx_opset/nn.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tf2onnx/onnx_opset/nn.py b/tf2onnx/onnx_opset/nn.py
index 7c19db6..a745f2f 100644
--- a/tf2onnx/onnx_opset/nn.py
+++ b/tf2onnx/onnx_opset/nn.py
@@ -1518,6 +1518,10 @@ class Resize:
                 # the reason not storing data at raw field is because of the bug:
                 # https://github.com/onnx/onnx/issues/1852
                 scale_val = np.array([1.0, 1.0, float(nh) / h, float(nw) / w]).astype(np.float32)
+                for i, (size, target) in enumerate([(h, nh), (w, nw)], 2):
+                    if int(np.float32(size) * scale_val[i]) < target:
+                        # rounded down too far to reach the target size
+                        scale_val[i] = np.nextafter(scale_val[i], np.float32(np.inf))
                 scales = ctx.make_const(utils.make_name("scales"), scale_val, raw=False)
             else:
                 ori_shape = ctx.make_node("Shape", [node.input[0]])
-- 
2.43.0


From 930804345b28a29dfb254e742a3e121a7315d2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:15 +0000
Subject: [PATCH 079/111] fix: shrinking an image at opset 9

---
 tf2onnx/onnx_opset/nn.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tf2onnx/onnx_opset/nn.py b/tf2onnx/onnx_opset/nn.py
index a745f2f..0b2336d 100644
--- a/tf2onnx/onnx_opset/nn.py
+++ b/tf2onnx/onnx_opset/nn.py
@@ -1514,6 +1514,8 @@ class Resize:
                 target_shape = node.inputs[1].get_tensor_value()
                 n, h, w, c = shape
                 nh, nw = target_shape
+                utils.make_sure(op_type != "Upsample" or (nh >= h and nw >= w),
+                                "Opset 10 is required to shrink the image for node %s", node.name)
                 # scales is nchw
                 # the reason not storing data at raw field is because of the bug:
                 # https://github.com/onnx/onnx/issues/1852
-- 
2.43.0


From 614e9c1cef119cd8d444bb8411c54c35ccc590e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:15 +0000
Subject: [PATCH 080/111] fix: bicubic resize without half pixel centers

---
 tf2onnx/onnx_opset/nn.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/onnx_opset/nn.py b/tf2onnx/onnx_opset/nn.py
index 0b2336d..b37c94b 100644
--- a/tf2onnx/onnx_opset/nn.py
+++ b/tf2onnx/onnx_opset/nn.py
@@ -1416,8 +1416,10 @@ class Resize:
             mode = "linear"
         elif node.type == "ResizeBicubic":
             mode = "cubic"
-            cubic_coeff_a = -0.5
-            exclude_outside = True
+            # tensorflow uses the kernel of Keys only together with half pixel centers
+            half_pixel = bool(node.get_attr_value("half_pixel_centers", 0))
+            cubic_coeff_a = -0.5 if half_pixel else -0.75
+            exclude_outside = half_pixel
         else:
             mode = "nearest"
         roi = ctx.make_const(utils.make_name("roi"), np.array([]).astype(np.float32))
-- 
2.43.0


From 3279965f104a3797b30502f49caf84cbc9d1b728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:28 +0000
Subject: [PATCH 081/111] fix: resizing integer, half or double images

---
 tf2onnx/onnx_opset/nn.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/tf2onnx/onnx_opset/nn.py b/tf2onnx/onnx_opset/nn.py
index b37c94b..7b105af 100644
--- a/tf2onnx/onnx_opset/nn.py
+++ b/tf2onnx/onnx_opset/nn.py
@@ -1379,10 +1379,19 @@ class CropAndResize:
 
 @tf_op(["ResizeBilinear", "ResizeNearestNeighbor", "ResizeBicubic", "ResizeArea"])
 class Resize:
+    @classmethod
+    def _cast_input(cls, ctx, node):
+        # all but nearest neighbor return float32 whatever the type of the images
+        if node.type != "ResizeNearestNeighbor" and ctx.get_dtype(node.input[0]) != TensorProto.FLOAT:
+            cast = ctx.insert_new_node_on_input(node, "Cast", node.input[0], to=TensorProto.FLOAT, input_index=0)
+            ctx.copy_shape(cast.input[0], cast.output[0])
+            ctx.set_dtype(cast.output[0], TensorProto.FLOAT)
+
     @classmethod
     def version_7(cls, ctx, node, **kwargs):
         utils.make_sure(node.type != "ResizeBicubic", "Opset 11 is required for bicubic interpolation for node %s",
                         node.name)
+        cls._cast_input(ctx, node)
         mode = "linear" if node.type == "ResizeBilinear" else "nearest"
         node.type = "Upsample"
         shape = ctx.get_shape(node.input[0])
@@ -1410,6 +1419,7 @@ class Resize:
 
     @classmethod
     def version_11(cls, ctx, node, **kwargs):
+        cls._cast_input(ctx, node)
         cubic_coeff_a = None
         exclude_outside = False
         if node.type == "ResizeBilinear":
@@ -1491,6 +1501,7 @@ class Resize:
         if "half_pixel_centers" in node.attr:
             utils.make_sure(not node.attr["half_pixel_centers"].i,
                             "Opset 11 is required for half_pixel_centers=True for node %s", node.name)
+        cls._cast_input(ctx, node)
         mode = "linear" if node.type == "ResizeBilinear" else "nearest"
 
         # because onnxruntime only supports to scale the last two dims so transpose is inserted
-- 
2.43.0


From 94f032535624416a460429492fc9311c3a41c592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:28 +0000
Subject: [PATCH 082/111] fix: area resize that does not just repeat pixels

---
 tf2onnx/onnx_opset/nn.py | 40 +++++++++++++++++++++++++++++++++++++++-
 1 file changed, 39 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/nn.py b/tf2onnx/onnx_opset/nn.py
index 7b105af..47f8569 100644
--- a/tf2onnx/onnx_opset/nn.py
+++ b/tf2onnx/onnx_opset/nn.py
@@ -1387,11 +1387,45 @@ class Resize:
             ctx.copy_shape(cast.input[0], cast.output[0])
             ctx.set_dtype(cast.output[0], TensorProto.FLOAT)
 
+    @classmethod
+    def _convert_area(cls, ctx, node):
+        """Area interpolation with static sizes that do not just repeat every pixel: a matrix for each dimension."""
+        shape = ctx.get_shape(node.input[0])
+        if node.type != "ResizeArea" or not shape or -1 in shape[1:3] or not node.inputs[1].is_const():
+            return False
+        align_corners = bool(node.get_attr_value("align_corners", 0))
+        sizes = list(zip(shape[1:3], node.inputs[1].get_tensor_value()))
+        if all(target == size or (target % size == 0 and not align_corners) for size, target in sizes):
+            return False
+
+        weights = []
+        for size, target in sizes:
+            scale = (size - 1) / (target - 1) if align_corners and target > 1 else size / target
+            weight = np.zeros((target, size), np.float32)
+            for i in range(target):
+                begin, end = i * scale, (i + 1) * scale
+                for j in range(int(np.floor(begin)), int(np.ceil(end))):
+                    weight[i, min(j, size - 1)] += (min(j + 1, end) - max(j, begin)) / scale
+            weights.append(weight)
+        name = utils.make_name(node.name)
+        rows = ctx.make_const(name + "_rows", weights[0]).output[0]
+        cols = ctx.make_const(name + "_cols", weights[1].T).output[0]
+        nchw = ctx.make_node("Transpose", [node.input[0]], {"perm": constants.NHWC_TO_NCHW}).output[0]
+        resized = ctx.make_node("MatMul", [ctx.make_node("MatMul", [rows, nchw]).output[0], cols]).output[0]
+        shapes = node.output_shapes
+        dtypes = node.output_dtypes
+        ctx.remove_node(node.name)
+        ctx.make_node("Transpose", [resized], {"perm": constants.NCHW_TO_NHWC},
+                      name=node.name, outputs=node.output, shapes=shapes, dtypes=dtypes)
+        return True
+
     @classmethod
     def version_7(cls, ctx, node, **kwargs):
         utils.make_sure(node.type != "ResizeBicubic", "Opset 11 is required for bicubic interpolation for node %s",
                         node.name)
         cls._cast_input(ctx, node)
+        if cls._convert_area(ctx, node):
+            return
         mode = "linear" if node.type == "ResizeBilinear" else "nearest"
         node.type = "Upsample"
         shape = ctx.get_shape(node.input[0])
@@ -1420,6 +1454,8 @@ class Resize:
     @classmethod
     def version_11(cls, ctx, node, **kwargs):
         cls._cast_input(ctx, node)
+        if cls._convert_area(ctx, node):
+            return
         cubic_coeff_a = None
         exclude_outside = False
         if node.type == "ResizeBilinear":
@@ -1495,13 +1531,15 @@ class Resize:
         # wants the input to be NHWC - adjust target_shape to this.
         utils.make_sure(node.type != "ResizeBicubic", "Opset 11 is required for bicubic interpolation for node %s",
                         node.name)
+        cls._cast_input(ctx, node)
+        if cls._convert_area(ctx, node):
+            return
         if "align_corners" in node.attr:
             utils.make_sure(not node.attr["align_corners"].i,
                             "Opset 11 is required for align_corners=True for node %s", node.name)
         if "half_pixel_centers" in node.attr:
             utils.make_sure(not node.attr["half_pixel_centers"].i,
                             "Opset 11 is required for half_pixel_centers=True for node %s", node.name)
-        cls._cast_input(ctx, node)
         mode = "linear" if node.type == "ResizeBilinear" else "nearest"
 
         # because onnxruntime only supports to scale the last two dims so transpose is inserted
-- 
2.43.0


From 6a176d4dc2183a0ecae99702aa39b679f7687e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:28 +0000
Subject: [PATCH 083/111] fix: nearest crop and resize halfway between two
 pixels

---
 tf2onnx/onnx_opset/nn.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tf2onnx/onnx_opset/nn.py b/tf2onnx/onnx_opset/nn.py
index 47f8569..a8fa6ee 100644
--- a/tf2onnx/onnx_opset/nn.py
+++ b/tf2onnx/onnx_opset/nn.py
@@ -1350,6 +1350,7 @@ class CropAndResize:
         resized_x = g.make_node("Resize", [transposed_x.output[0], final_roi.output[0], const_empty_float.output[0],
                                            final_crop_size.output[0]],
                                 attr={"mode": mode, "extrapolation_value": extrapolation_value,
+                                      "nearest_mode": "round_prefer_ceil",
                                       "coordinate_transformation_mode": "tf_crop_and_resize"})
         recovered_x = g.make_node("Transpose", [resized_x.output[0]], attr={'perm': constants.NCHW_TO_NHWC})
         squeeze_x = GraphBuilder(g).make_squeeze({'data': recovered_x.output[0], 'axes': [0]}, return_node=True)
-- 
2.43.0


From 7be445bc30d2393e2e8dcb0e00bf00afd17ea0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:28 +0000
Subject: [PATCH 084/111] fix: crop and resize of integer, half or double
 images

---
 tf2onnx/onnx_opset/nn.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/nn.py b/tf2onnx/onnx_opset/nn.py
index a8fa6ee..bc7e359 100644
--- a/tf2onnx/onnx_opset/nn.py
+++ b/tf2onnx/onnx_opset/nn.py
@@ -1308,6 +1308,9 @@ class CropAndResize:
             "method").s == b"nearest" else "linear"
         extrapolation_value = float(node.get_attr("extrapolation_value", "0").f)
         input_x = node.input[0]
+        if ctx.get_dtype(input_x) != TensorProto.FLOAT:
+            # the crops are float32 whatever the type of the images
+            input_x = ctx.make_node("Cast", [input_x], attr={'to': TensorProto.FLOAT}).output[0]
         x_shape = ctx.make_node("Shape", [input_x]).output[0]
         num_channels = GraphBuilder(ctx).make_slice({"data": x_shape, "starts": [3], "ends": [4], "axes": [0]})
         boxes = node.input[1]
@@ -1356,7 +1359,7 @@ class CropAndResize:
         squeeze_x = GraphBuilder(g).make_squeeze({'data': recovered_x.output[0], 'axes': [0]}, return_node=True)
         g.make_node("Identity", [cond_name], outputs=[cond_out_name])
         g.add_graph_output(cond_out_name, TensorProto.BOOL, [])
-        g.add_graph_output(squeeze_x.output[0], ctx.get_dtype(node.input[0]), [-1, -1, -1])
+        g.add_graph_output(squeeze_x.output[0], TensorProto.FLOAT, [-1, -1, -1])
         trip_node = ctx.make_node("Size", [box_ind])
         cond_const = ctx.make_const(utils.make_name("cond"), np.ones((), dtype=bool))
         ctx.remove_node(node.name)
-- 
2.43.0


From acdd0328e585f530b17037096bb21d61cf28faa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:49 +0000
Subject: [PATCH 085/111] fix: contrast adjustment of half images

---
 tf2onnx/onnx_opset/nn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/nn.py b/tf2onnx/onnx_opset/nn.py
index bc7e359..6f185c6 100644
--- a/tf2onnx/onnx_opset/nn.py
+++ b/tf2onnx/onnx_opset/nn.py
@@ -1611,7 +1611,7 @@ class AdjustContrastv2:
         images, contrast_factor = node.input
         dtype = ctx.get_dtype(images)
         if ctx.get_dtype(contrast_factor) != dtype:
-            contrast_factor = ctx.make_node("Cast", [dtype], attr={'to': dtype}).output[0]
+            contrast_factor = ctx.make_node("Cast", [contrast_factor], attr={'to': dtype}).output[0]
         rank = ctx.get_rank(images)
         utils.make_sure(rank is not None, "AdjustContrastv2 requires input of known rank")
         # Reduce height and width only
-- 
2.43.0


From 124cb7f4d780a83379ae1f5532a4c6818c9bbe2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:52 +0000
Subject: [PATCH 086/111] fix: crop and resize at opset 10 where RoiAlign does
 something else

---
 tf2onnx/onnx_opset/nn.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/tf2onnx/onnx_opset/nn.py b/tf2onnx/onnx_opset/nn.py
index 6f185c6..45894c9 100644
--- a/tf2onnx/onnx_opset/nn.py
+++ b/tf2onnx/onnx_opset/nn.py
@@ -1269,6 +1269,17 @@ class CropAndResize:
         rois = node.inputs[1].get_tensor_value()
         rois_shape = ctx.get_shape(node.input[1])
         img_shape = ctx.get_shape(node.input[0])
+        # RoiAlign clamps instead of extrapolating, widens small boxes and cannot be reversed
+        utils.make_sure(node.get_attr_value("method", b"bilinear") == b"bilinear",
+                        "Opset 11 is required for nearest CropAndResize for node %s", name)
+        utils.make_sure(img_shape is not None and -1 not in img_shape[1:3] and min(output_height, output_width) > 1,
+                        "Opset 11 is required for CropAndResize of images of unknown size or to one pixel, node %s", name)
+        for y1, x1, y2, x2 in rois:
+            utils.make_sure(min(y1, x1) >= 0 and max(y2, x2) <= 1,
+                            "Opset 11 is required for CropAndResize outside of the image, node %s", name)
+            utils.make_sure((y2 - y1) * (img_shape[1] - 1) * output_height >= output_height - 1 and
+                            (x2 - x1) * (img_shape[2] - 1) * output_width >= output_width - 1,
+                            "Opset 11 is required for CropAndResize of less than one pixel, node %s", name)
         transform_rois = np.zeros(list(rois_shape), dtype=np.float32)
         for i in range(rois_shape[0]):
             y1, x1, y2, x2 = rois[i]
-- 
2.43.0


From 0fd1052bac714988812248d5b42dd05a888c342f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:52 +0000
Subject: [PATCH 087/111] fix: crop and resize of integer, half or double
 images at opset 10

---
 tf2onnx/onnx_opset/nn.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/nn.py b/tf2onnx/onnx_opset/nn.py
index 45894c9..cc820ec 100644
--- a/tf2onnx/onnx_opset/nn.py
+++ b/tf2onnx/onnx_opset/nn.py
@@ -1301,7 +1301,10 @@ class CropAndResize:
         bbox_node = ctx.make_const(utils.make_name("bbox"), transform_rois)
         dtypes = [ctx.get_dtype(node.output[0])]
         shapes = [ctx.get_shape(node.output[0])]
-        input_nchw = ctx.make_node("Transpose", [node.input[0]], {"perm": [0, 3, 1, 2]},
+        image = node.input[0]
+        if ctx.get_dtype(image) != TensorProto.FLOAT:
+            image = ctx.make_node("Cast", [image], attr={'to': TensorProto.FLOAT}).output[0]
+        input_nchw = ctx.make_node("Transpose", [image], {"perm": [0, 3, 1, 2]},
                                    name=utils.make_name(node.name))
         crop_and_resize = ctx.make_node("RoiAlign", inputs=[input_nchw.output[0], bbox_node.output[0],
                                                             cast_node.output[0]],
-- 
2.43.0


From 696d734a8e617c3001527b4222d2102ac6d7026f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:27 +0000
Subject: [PATCH 088/111] fix: shape of a loop output whose transpose is moved
 out of the loop

---
 tf2onnx/optimizer/loop_optimizer.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/optimizer/loop_optimizer.py b/tf2onnx/optimizer/loop_optimizer.py
index d52d1a5..e21766c 100644
--- a/tf2onnx/optimizer/loop_optimizer.py
+++ b/tf2onnx/optimizer/loop_optimizer.py
@@ -78,7 +78,15 @@ class LoopOptimizer(GraphOptimizerBase):
                 ori_perm = list(trans.get_attr("perm").ints)
                 new_perm = [0] + [i + 1 for i in ori_perm]  # body output's rank is m > rank of loop's output is m+1
                 name = make_name("trans_moved_from_loop_body")
-                _ = parent_graph.insert_new_node_on_output("Transpose", name_in_parent, name, perm=new_perm)
+                shape = parent_graph.get_shape(name_in_parent)
+                dtype = parent_graph.get_dtype(name_in_parent)
+                trans_moved = parent_graph.insert_new_node_on_output("Transpose", name_in_parent, name, perm=new_perm)
+                if dtype is not None:
+                    parent_graph.set_dtype(trans_moved.output[0], dtype)
+                if shape is not None and len(shape) == len(new_perm):
+                    # the loop itself now returns what had been transposed
+                    parent_graph.set_shape(trans_moved.output[0], shape)
+                    parent_graph.set_shape(name_in_parent, [shape[new_perm.index(i)] for i in range(len(shape))])
                 graph_is_changed = True
 
         return graph_is_changed
-- 
2.43.0


From d3947c5ce9d37fb9c59e8ae3abb9157a5cc50d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:28 +0000
Subject: [PATCH 089/111] fix: reshape optimizer and a target dimension of zero

---
 tf2onnx/optimizer/reshape_optimizer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tf2onnx/optimizer/reshape_optimizer.py b/tf2onnx/optimizer/reshape_optimizer.py
index 73933d9..304cca3 100644
--- a/tf2onnx/optimizer/reshape_optimizer.py
+++ b/tf2onnx/optimizer/reshape_optimizer.py
@@ -65,6 +65,9 @@ class ReshapeOptimizer(GraphOptimizerBase):
         utils.make_sure(len(symbolic_res[0].shape) == 1, "Shape must have rank 1")
         symbolic_shape = symbolic_res[0].tolist()
         product_cnt = len([val for val in symbolic_shape if val.has_multiple_terms()])
+        if any(val.is_const() and val.constant == 0 for val in symbolic_shape):
+            # A zero in the shape means that the dim is copied
+            return False
         idx_cnt = len([val for val in symbolic_shape if val.is_single_var()])
         if product_cnt > 1:
             # The -1 lets us handle at most one dim with multiple terms
-- 
2.43.0


From fd4ae9712e6405a7354a98bb44fb2b0985b314b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:52 +0000
Subject: [PATCH 090/111] fix: merging nodes of which one leaves out an
 optional output

---
 tf2onnx/optimizer/merge_duplicated_nodes_optimizer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/optimizer/merge_duplicated_nodes_optimizer.py b/tf2onnx/optimizer/merge_duplicated_nodes_optimizer.py
index 8d876ce..d124263 100644
--- a/tf2onnx/optimizer/merge_duplicated_nodes_optimizer.py
+++ b/tf2onnx/optimizer/merge_duplicated_nodes_optimizer.py
@@ -101,7 +101,11 @@ class MergeDuplicatedNodesOptimizer(GraphOptimizerBase):
             # if one of the output is graph's output then it can't be deleted
             if set(node_to_delete.output).intersection(set(graph.outputs)):
                 continue
-            for old_input, new_input in zip(node_to_delete.output, node_to_retain.output):
+            # optional outputs that are not computed have an empty name
+            pairs = [(old, new) for old, new in zip(node_to_delete.output, node_to_retain.output) if old]
+            if not all(new for _, new in pairs):
+                continue
+            for old_input, new_input in pairs:
                 graph.replace_all_inputs(old_input, new_input)
             graph.remove_node(node_to_delete.name)
             self._graph_can_be_optimized = True
-- 
2.43.0


From 8494dccccc0e61d179f0b951fbb8008836049cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:46 +0000
Subject: [PATCH 091/111] fix: merging random nodes makes their samples equal

---
 tf2onnx/optimizer/merge_duplicated_nodes_optimizer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tf2onnx/optimizer/merge_duplicated_nodes_optimizer.py b/tf2onnx/optimizer/merge_duplicated_nodes_optimizer.py
index d124263..80fc76e 100644
--- a/tf2onnx/optimizer/merge_duplicated_nodes_optimizer.py
+++ b/tf2onnx/optimizer/merge_duplicated_nodes_optimizer.py
@@ -115,6 +115,10 @@ class MergeDuplicatedNodesOptimizer(GraphOptimizerBase):
         # identity node will be handled by identity optimizer so skip it
         if node.type in ["Identity"]:
             return True
+        # each random node draws its own samples
+        if node.type in ["RandomNormal", "RandomNormalLike", "RandomUniform", "RandomUniformLike", "Multinomial",
+                         "Bernoulli"]:
+            return True
         if node.is_graph_input():
             return True
         return False
-- 
2.43.0


From f300f6778c890d1d6fa53968af2da76178006f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:25 +0000
Subject: [PATCH 092/111] fix: random patterns whose intermediates are used
 elsewhere

---
 tf2onnx/rewriter/random_normal_rewriter.py |  6 +++++-
 tf2onnx/rewriter/random_uniform.py         | 12 +++++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/rewriter/random_normal_rewriter.py b/tf2onnx/rewriter/random_normal_rewriter.py
index cb2e5ee..b932899 100644
--- a/tf2onnx/rewriter/random_normal_rewriter.py
+++ b/tf2onnx/rewriter/random_normal_rewriter.py
@@ -7,6 +7,7 @@ tf2onnx.rewriter - rewrite tensorflow subgraph to onnx random normal op
 
 from tf2onnx import utils
 from tf2onnx.graph_matcher import GraphMatcher, OpTypePattern
+from tf2onnx.rewriter.random_uniform import is_only_used_by
 
 # pylint: disable=missing-docstring
 
@@ -41,6 +42,10 @@ def rewrite_random_normal(g, ops):
                     break
             if is_output:
                 continue
+            rn_op = match.get_op('input1')
+            if not is_only_used_by(g, rn_op, input2) or not is_only_used_by(g, input2, output):
+                # the other users would get samples different from those of the new node
+                continue
             if output.type == 'Add' and input2.type == 'Mul':
                 # pattern 1
                 if not output.inputs[1].is_scalar() or not input2.inputs[1].is_scalar():
@@ -55,7 +60,6 @@ def rewrite_random_normal(g, ops):
             op_name = utils.make_name("RandomNormal")
             out_name = utils.port_name(op_name)
 
-            rn_op = match.get_op('input1')
             seed = float(rn_op.get_attr('seed2').i)
 
             attr = {"mean": mean, "scale": scale, "dtype": dtype, "seed": seed}
diff --git a/tf2onnx/rewriter/random_uniform.py b/tf2onnx/rewriter/random_uniform.py
index 0aa27c1..e47a196 100644
--- a/tf2onnx/rewriter/random_uniform.py
+++ b/tf2onnx/rewriter/random_uniform.py
@@ -13,10 +13,16 @@ from tf2onnx.graph_matcher import GraphMatcher, OpTypePattern
 # pylint: disable=missing-docstring
 
 
+def is_only_used_by(g, op, consumer):
+    """Tell whether consumer alone uses op: a second use would get other samples after the rewrite."""
+    return op.output[0] not in g.outputs and \
+        all(user.name == consumer.name for user in g.find_output_consumers(op.output[0]))
+
+
 def rewrite_random_uniform(g, ops):
     pattern = \
         OpTypePattern('Add', name='output', inputs=[
-            OpTypePattern('Mul', inputs=[
+            OpTypePattern('Mul', name='mul', inputs=[
                 OpTypePattern('RandomUniform', name='input1', inputs=["*"]),
                 OpTypePattern('Sub', name='input2', inputs=["Const|ConstV2", "Const|ConstV2"]),
             ]), None
@@ -31,6 +37,8 @@ def rewrite_random_uniform(g, ops):
         # the offset has to be the lower bound, and the bounds scalars
         if output.input[1] != input2.input[1] or not all(inp.is_scalar() for inp in input2.inputs):
             continue
+        if not is_only_used_by(g, ru_op, match.get_op('mul')) or not is_only_used_by(g, match.get_op('mul'), output):
+            continue
         # max is on input 0
         tmax = input2.inputs[0].get_tensor_value()
         tmin = input2.inputs[1].get_tensor_value()
@@ -60,6 +68,8 @@ def rewrite_random_uniform_fold_const(g, ops):
         ru_op = match.get_op('input1')
         if not mul.inputs[1].is_scalar() or not output.inputs[1].is_scalar():
             continue
+        if not is_only_used_by(g, ru_op, mul) or not is_only_used_by(g, mul, output):
+            continue
         tmax_minus_tmin = mul.inputs[1].get_tensor_value()
         tmin = output.inputs[1].get_tensor_value()
         tmax = tmin + tmax_minus_tmin
-- 
2.43.0


From 79f146be84647fb053ae741e3a9b8fdbe37c8f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:36 +0000
Subject: [PATCH 093/111] fix: mean and variance outputs of FusedBatchNorm

---
 tf2onnx/onnx_opset/nn.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/tf2onnx/onnx_opset/nn.py b/tf2onnx/onnx_opset/nn.py
index cc820ec..2783d0b 100644
--- a/tf2onnx/onnx_opset/nn.py
+++ b/tf2onnx/onnx_opset/nn.py
@@ -1019,11 +1019,12 @@ class BatchNorm:
             ctx.copy_shape(node.name, cast_back_node.output[0])
             ctx.set_dtype(node.output[0], mean_type)
 
+        # the other outputs of onnx are training results and differ between opsets: compute them if they are needed
         consumers = [ctx.find_output_consumers(output_name) for output_name in node.output[1:]]
-        if not any(consumers):
-            new_output = [node.output[0]]
-            # the setter makes a copy of new_output
-            node.output = new_output
+        utils.make_sure(not any(consumers[2:]), "reserve space outputs of %s are not supported", node.name)
+        batch_mean, batch_var = [out if c else None for out, c in zip(node.output[1:3], consumers)]
+        # the setter makes a copy of the list
+        node.output = [node.output[0]]
 
         conv_convert_inputs(ctx, node, with_kernel=False, spatial=spatial)
 
@@ -1055,6 +1056,16 @@ class BatchNorm:
 
             pop_var_squeezed = ctx.make_node("Div", [var_squeezed, cnt_float.output[0]]).output[0]
             ctx.replace_inputs(node, node.input[:3] + [avg_squeezed, pop_var_squeezed])
+            if batch_mean:
+                ctx.make_node("Identity", [avg_squeezed], outputs=[batch_mean], shapes=[scale_shape],
+                              dtypes=[mean_type])
+            if batch_var:
+                # the running variance is unbiased
+                one = ctx.make_const(utils.make_name("one"), np.array(1, val_type)).output[0]
+                cnt_minus_one = ctx.make_node("Sub", [cnt_float.output[0], one]).output[0]
+                divisor = ctx.make_node("Max", [cnt_minus_one, one]).output[0]
+                ctx.make_node("Div", [var_squeezed, divisor], outputs=[batch_var], shapes=[scale_shape],
+                              dtypes=[mean_type])
         elif is_training:
             logger.warning("Node %s of type %s has is_training set to true, which is not supperted. "
                            "Please re-save the model with training set to false.",
@@ -1076,6 +1087,11 @@ class BatchNorm:
             ctx.make_const(new_val_node_name, new_var_value)
             ctx.replace_input(node, node.input[4], new_val_node_name, 4)
 
+        if not is_training:
+            for out, stat in zip([batch_mean, batch_var], node.input[3:5]):
+                if out:
+                    ctx.make_node("Identity", [stat], outputs=[out], shapes=[ctx.get_shape(stat)], dtypes=[mean_type])
+
     @classmethod
     def version_9(cls, ctx, node, **kwargs):
         # is_test was removed - no change for us
-- 
2.43.0


From 672bff890b535f30fc6f05775a16e0f3b825bb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:36 +0000
Subject: [PATCH 094/111] fix: softmax cross entropy of other outputs than the
 first and of unlikely labels

---
 tf2onnx/onnx_opset/nn.py | 59 ++++++++++++++--------------------------
 1 file changed, 21 insertions(+), 38 deletions(-)

diff --git a/tf2onnx/onnx_opset/nn.py b/tf2onnx/onnx_opset/nn.py
index 2783d0b..c087b49 100644
--- a/tf2onnx/onnx_opset/nn.py
+++ b/tf2onnx/onnx_opset/nn.py
@@ -1925,15 +1925,15 @@ class MatrixBandPart:
 
 
 def _make_softmax_cross_entropy_with_logits(ctx, label, logit, tf_ori_node):
-    label_dtype = ctx.get_dtype(label.output[0])
-    logit_dtype = ctx.get_dtype(logit.output[0])
+    label_dtype = ctx.get_dtype(label)
+    logit_dtype = ctx.get_dtype(logit)
     utils.make_sure(label_dtype == logit_dtype, "the following logic only works on same dtype of label and logit")
 
-    log_softmax = ctx.make_node(op_type="LogSoftmax", inputs=logit.output)
+    log_softmax = ctx.make_node(op_type="LogSoftmax", inputs=[logit], attr={"axis": 1})
     # implement tf.multiply(-1, tf.reduce_sum(tf.multiply(label, log_softmax), axis=1))
-    mul1 = ctx.make_node(op_type="Mul", inputs=[label.output[0], log_softmax.output[0]])
+    mul1 = ctx.make_node(op_type="Mul", inputs=[label, log_softmax.output[0]])
     reduce_sum_output = GraphBuilder(ctx).make_reduce_sum(
-        {"data": mul1.output[0], "axes": [-1], "keepdims": 1, "noop_with_empty_axes": 1})
+        {"data": mul1.output[0], "axes": [1], "keepdims": 1, "noop_with_empty_axes": 1})
     const_negative_one = ctx.make_const(name=utils.make_name("const_negative_one"),
                                         np_val=np.array(-1).astype(utils.ONNX_TO_NUMPY_DTYPE[logit_dtype]))
     mul2 = ctx.make_node(op_type="Mul", inputs=[const_negative_one.output[0], reduce_sum_output])
@@ -1994,37 +1994,25 @@ def sparse_softmax_cross_entropy_with_logits_op_by_gathernd(ctx, node, **kwargs)
 class SoftmaxCrossEntropyWithLogits:
     @classmethod
     def version_7(cls, ctx, node, **kwargs):
-        logits = node.inputs[0]
-        logit_dtype = ctx.get_dtype(logits.output[0])
-        labels = node.inputs[1]
-        label_dtype = ctx.get_dtype(labels.output[0])
+        logits, labels = node.input
+        logit_dtype = ctx.get_dtype(logits)
+        label_dtype = ctx.get_dtype(labels)
         if label_dtype != logit_dtype:
-            labels = ctx.make_node("Cast", labels.output, attr={"to": logit_dtype}, dtypes=[logit_dtype])
+            labels = ctx.make_node("Cast", [labels], attr={"to": logit_dtype}, dtypes=[logit_dtype]).output[0]
 
         _make_softmax_cross_entropy_with_logits(ctx, labels, logits, node)
 
 
 def _make_sparse_softmax_cross_entropy_with_logits(ctx, label, logit, tf_ori_node):
-    logit = logit.output[0]
-    label = label.output[0]
-    label_dtype = ctx.get_dtype(label)
     logit_dtype = ctx.get_dtype(logit)
-    utils.make_sure(label_dtype == logit_dtype, "the following logic only works on same dtype of label and logit")
 
-    # when label is onehot, logic "tf.multiply(-1, tf.reduce_sum(tf.multiply(label, log_softmax), axis=1))" is equal to
-    # "-log(q_i)" where i is the selected index specified by label, q_i = logic_i/sum, the detail process is as follows:
-    # logit_exp=exp(logit) >> sum = tf.reduce_sum(logit_exp, axis = -1), masked_sum = reduce_sum(mul(logit_exp, mul))
-    # >> -log(masked_sum/sum)
-    logit_max = GraphBuilder(ctx).make_reduce_max({"data": logit, "axes": [-1], "keepdims": 1})
-    logit_norm = ctx.make_node(op_type="Sub", inputs=[logit, logit_max]).output[0]
-    logit_exp = ctx.make_node(op_type="Exp", inputs=[logit_norm]).output[0]
-    logit_exp_sum = GraphBuilder(ctx).make_reduce_sum(
-        {"data": logit_exp, "axes": [-1], "keepdims": 0, "noop_with_empty_axes": 1})
-    masked = ctx.make_node(op_type="Mul", inputs=[label, logit_exp]).output[0]
-    masked_sum = GraphBuilder(ctx).make_reduce_sum(
-        {"data": masked, "axes": [-1], "keepdims": 0, "noop_with_empty_axes": 1})
-    probability = ctx.make_node(op_type="Div", inputs=[masked_sum, logit_exp_sum]).output[0]
-    log_prob = ctx.make_node(op_type="Log", inputs=[probability]).output[0]
+    # select the log probability of the label; exp(logit) of an unlikely label may be zero, its log_softmax is finite
+    log_softmax = ctx.make_node(op_type="LogSoftmax", inputs=[logit], attr={"axis": 1}).output[0]
+    zero = ctx.make_const(utils.make_name("const_zero"),
+                          np.array(0).astype(utils.ONNX_TO_NUMPY_DTYPE[logit_dtype])).output[0]
+    masked = ctx.make_node(op_type="Where", inputs=[label, log_softmax, zero]).output[0]
+    log_prob = GraphBuilder(ctx).make_reduce_sum(
+        {"data": masked, "axes": [1], "keepdims": 0, "noop_with_empty_axes": 1})
     const_negative_one = ctx.make_const(name=utils.make_name("const_negative_one"),
                                         np_val=np.array(-1).astype(utils.ONNX_TO_NUMPY_DTYPE[logit_dtype])).output[0]
 
@@ -2079,11 +2067,8 @@ class SparseSoftmaxCrossEntropyWithLogits:
     def version_9(cls, ctx, node, **kwargs):
         # float32/64 output = SparseSoftmaxCrossEntropyWithLogits(float32/64 features, int32/64 labels)
         # the detail math process of this op is: a = onehot(labels), b = logsoftmax(features), reduce_sum(mul(a, b))
-        logit_node = node.inputs[0]
-        logit_shape = ctx.get_shape(node.input[0])
-        logit_dtype = ctx.get_dtype(node.input[0])
-
-        label_name = node.input[1]
+        logit_name, label_name = node.input
+        logit_shape = ctx.get_shape(logit_name)
 
         if logit_shape is not None and logit_shape[-1] != -1:
             num_class = logit_shape[-1]
@@ -2112,12 +2097,10 @@ class SparseSoftmaxCrossEntropyWithLogits:
             one_const = ctx.make_const(utils.make_name("const_one"), np.array(1, np.int64)).output[0]
             dp_range = ctx.make_node("Range", [zero_const, depth_sq, one_const]).output[0]
             label_node = ctx.make_node("Equal", [index_unsq, dp_range])
-        # the above logic makes output dtype of label_node now always int64
-        # make sure label has same dtype as logit
-        if logit_dtype != ctx.get_dtype(label_node.output[0]):
-            label_node = ctx.make_node("Cast", label_node.output, attr={"to": logit_dtype}, dtypes=[logit_dtype])
+        if ctx.opset < 11:
+            label_node = ctx.make_node("Cast", label_node.output, attr={"to": TensorProto.BOOL})
 
-        _make_sparse_softmax_cross_entropy_with_logits(ctx, label_node, logit_node, node)
+        _make_sparse_softmax_cross_entropy_with_logits(ctx, label_node.output[0], logit_name, node)
 
 
 @tf_op("CTCGreedyDecoder")
-- 
2.43.0


From 9b6b92cb6d81ec9944de9882620d17f582acbab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:13 +0000
Subject: [PATCH 095/111] fix: moving a transpose out of a loop whose output is
 an output of the model

---
 tf2onnx/optimizer/loop_optimizer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tf2onnx/optimizer/loop_optimizer.py b/tf2onnx/optimizer/loop_optimizer.py
index e21766c..7b5151b 100644
--- a/tf2onnx/optimizer/loop_optimizer.py
+++ b/tf2onnx/optimizer/loop_optimizer.py
@@ -56,6 +56,9 @@ class LoopOptimizer(GraphOptimizerBase):
             # 1 delete node in body graph if possible
             # only consider two case: trans is output, or transpose > identity > output
             need_process = False
+            if name_in_parent in parent_graph.outputs:
+                # the transpose would come behind the output
+                continue
             if node.type == "Transpose" and self.num_consumers(body_graph, node) == 1:
                 trans = node
                 new_output = node.input[0]
-- 
2.43.0


From ba47a143f11d53c693dd3e64f0b16040a8c9ffde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:34 +0000
Subject: [PATCH 096/111] fix: folding a reshape that allows a dimension of
 zero

---
 tf2onnx/optimizer/const_fold_optimizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tf2onnx/optimizer/const_fold_optimizer.py b/tf2onnx/optimizer/const_fold_optimizer.py
index 95ce07b..8ff1083 100644
--- a/tf2onnx/optimizer/const_fold_optimizer.py
+++ b/tf2onnx/optimizer/const_fold_optimizer.py
@@ -122,6 +122,8 @@ class ConstFoldOptimizer(GraphOptimizerBase):
         const_val_data = node.inputs[0].get_tensor_value(as_list=False)
         const_val_shape = node.inputs[1].get_tensor_value(as_list=True)
         data_shape = const_val_data.shape
+        if node.get_attr_value("allowzero", 0):
+            return [const_val_data.reshape(const_val_shape)]
         for i, dim in enumerate(const_val_shape):
             if dim == 0:
                 # In ORT a dim of 0 means the shape stays the same.
-- 
2.43.0


From 59fc2602ed77e395b717f5360c1476d742f65e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:42 +0000
Subject: [PATCH 097/111] fix: folding a reshape of a dequantized constant that
 something else uses

---
 tf2onnx/optimizer/const_dequantize_optimizer.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tf2onnx/optimizer/const_dequantize_optimizer.py b/tf2onnx/optimizer/const_dequantize_optimizer.py
index 5fbfccc..717e9b8 100644
--- a/tf2onnx/optimizer/const_dequantize_optimizer.py
+++ b/tf2onnx/optimizer/const_dequantize_optimizer.py
@@ -39,7 +39,8 @@ class ConstDequantizeOptimizer(GraphOptimizerBase):
         dequant_node = node.inputs[0]
         if dequant_node.type != "DequantizeLinear":
             return False
-        if len(graph.find_output_consumers(dequant_node.output[0])) > 1:
+        if len(dequant_node.graph.find_output_consumers(dequant_node.output[0])) > 1 \
+                or self._is_graph_output(dequant_node, dequant_node.graph):
             return False
         if not self._all_inputs_are_const(node.inputs[1:]) or self._is_graph_output(node, graph):
             return False
@@ -58,9 +59,10 @@ class ConstDequantizeOptimizer(GraphOptimizerBase):
         graph.replace_all_inputs(node.output[0], dequant_node.output[0])
         graph.remove_node(node.name)
         dequant_const = dequant_node.inputs[0]
-        if len(graph.find_output_consumers(dequant_const.output[0])) > 1:
-            dequant_const = graph.copy_const(dequant_const)
-            graph.replace_input(dequant_node, dequant_node.input[0], dequant_const.output[0], 0)
+        if len(dequant_const.graph.find_output_consumers(dequant_const.output[0])) > 1 \
+                or self._is_graph_output(dequant_const, dequant_const.graph):
+            dequant_const = dequant_node.graph.copy_const(dequant_const)
+            dequant_node.graph.replace_input(dequant_node, dequant_node.input[0], dequant_const.output[0], 0)
         dequant_const.set_tensor_value(const_outputs[0])
         return True
 
-- 
2.43.0


From 3b5575dc287ce823dedcd3940642f5ef6329ea02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:42 +0000
Subject: [PATCH 098/111] fix: quantization must not move through a scatter
 that computes

---
 tf2onnx/optimizer/q_dq_optimizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tf2onnx/optimizer/q_dq_optimizer.py b/tf2onnx/optimizer/q_dq_optimizer.py
index 7545b40..d4cf08f 100644
--- a/tf2onnx/optimizer/q_dq_optimizer.py
+++ b/tf2onnx/optimizer/q_dq_optimizer.py
@@ -144,6 +144,8 @@ def is_tensor_op(g, node):
         # Output depends on data if indices is unchanged
         return ([0], [0])
     if node.type in ["Scatter", "ScatterND", "ScatterElements"]:
+        if node.get_attr_value("reduction", b"none") not in [b"none", "none"]:
+            return None
         # Output depends on data and updates if indices is unchanged
         return ([0, 2], [0])
     if node.type == "Concat":
-- 
2.43.0


From 07738192ff8c398c64446fa77af937aa2ff84274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:42 +0000
Subject: [PATCH 099/111] fix: per-channel quantization along the default axis

---
 tf2onnx/optimizer/q_dq_optimizer.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/optimizer/q_dq_optimizer.py b/tf2onnx/optimizer/q_dq_optimizer.py
index d4cf08f..d9648a5 100644
--- a/tf2onnx/optimizer/q_dq_optimizer.py
+++ b/tf2onnx/optimizer/q_dq_optimizer.py
@@ -34,7 +34,7 @@ class QDQOptimizer(GraphOptimizerBase):
         return graph
 
     def _optimize_quantize(self, quant_node, graph):
-        if 'axis' in quant_node.attr:
+        if not self.is_per_tensor(quant_node, graph):
             return False
         node = quant_node.inputs[0]
         if node.type == "DequantizeLinear":
@@ -80,7 +80,7 @@ class QDQOptimizer(GraphOptimizerBase):
         return True
 
     def _optimize_dequantize(self, dequant_node, graph):
-        if 'axis' in dequant_node.attr:
+        if not self.is_per_tensor(dequant_node, graph):
             return False
         # Push dequantize nodes down
         consumers = graph.find_output_consumers(dequant_node.output[0])
@@ -117,6 +117,12 @@ class QDQOptimizer(GraphOptimizerBase):
 
         return True
 
+    @staticmethod
+    def is_per_tensor(node, graph):
+        # the axis attribute has a default: more than one scale means per-channel quantization without it, too
+        scale_shape = graph.get_shape(node.input[1])
+        return 'axis' not in node.attr and scale_shape is not None and all(dim == 1 for dim in scale_shape)
+
     def has_same_quantization_params(self, node1, node2):
         if node1.get_attr_value("axis") != node2.get_attr_value("axis"):
             return False
-- 
2.43.0


From 407f4000fc6951dbe035bc2fddedbc7a2fb70d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:42 +0000
Subject: [PATCH 100/111] fix: quantization without zero point always returns
 uint8

---
 tf2onnx/optimizer/q_dq_optimizer.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/tf2onnx/optimizer/q_dq_optimizer.py b/tf2onnx/optimizer/q_dq_optimizer.py
index d9648a5..7ee123c 100644
--- a/tf2onnx/optimizer/q_dq_optimizer.py
+++ b/tf2onnx/optimizer/q_dq_optimizer.py
@@ -6,6 +6,8 @@
    Does not work for per-channel quantization yet
 """
 
+from onnx import TensorProto
+
 from .optimizer_base import GraphOptimizerBase
 
 # pylint: disable=logging-not-lazy,unused-argument,missing-docstring
@@ -39,7 +41,7 @@ class QDQOptimizer(GraphOptimizerBase):
         node = quant_node.inputs[0]
         if node.type == "DequantizeLinear":
             # Remove DQ -> Q
-            if not self.has_same_quantization_params(quant_node, node):
+            if not self.has_same_quantization_params(quant_node, node, graph):
                 return False
             if quant_node.output[0] in graph.outputs or node.output[0] in graph.outputs:
                 return False
@@ -62,7 +64,7 @@ class QDQOptimizer(GraphOptimizerBase):
             for c in consumers:
                 if c.type != "QuantizeLinear":
                     return False
-                if not self.has_same_quantization_params(c, quant_node):
+                if not self.has_same_quantization_params(c, quant_node, graph):
                     return False
                 if c.output[0] in graph.outputs:
                     return False
@@ -98,7 +100,7 @@ class QDQOptimizer(GraphOptimizerBase):
             inp = node.inputs[i]
             if inp.type != "DequantizeLinear":
                 return False
-            if not self.has_same_quantization_params(inp, dequant_node):
+            if not self.has_same_quantization_params(inp, dequant_node, graph):
                 return False
             if inp.output[0] in graph.outputs:
                 return False
@@ -123,9 +125,18 @@ class QDQOptimizer(GraphOptimizerBase):
         scale_shape = graph.get_shape(node.input[1])
         return 'axis' not in node.attr and scale_shape is not None and all(dim == 1 for dim in scale_shape)
 
-    def has_same_quantization_params(self, node1, node2):
+    @staticmethod
+    def quantized_dtype(node, graph):
+        if node.type == "DequantizeLinear":
+            return graph.get_dtype(node.input[0])
+        # without a zero point the result is uint8
+        return graph.get_dtype(node.input[2]) if len(node.input) > 2 else TensorProto.UINT8
+
+    def has_same_quantization_params(self, node1, node2, graph):
         if node1.get_attr_value("axis") != node2.get_attr_value("axis"):
             return False
+        if self.quantized_dtype(node1, graph) != self.quantized_dtype(node2, graph):
+            return False
         # Constant merging will ensure these are the same nodes if they are equal
         return node1.input[1:] == node2.input[1:]
 
-- 
2.43.0


From 372398c155157eb071ee4fc57c95f8841a3fa58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:01 +0000
Subject: [PATCH 101/111] fix: quantization nobody uses is pushed up forever

---
 tf2onnx/optimizer/q_dq_optimizer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/optimizer/q_dq_optimizer.py b/tf2onnx/optimizer/q_dq_optimizer.py
index 7ee123c..b6941c6 100644
--- a/tf2onnx/optimizer/q_dq_optimizer.py
+++ b/tf2onnx/optimizer/q_dq_optimizer.py
@@ -66,7 +66,7 @@ class QDQOptimizer(GraphOptimizerBase):
                     return False
                 if not self.has_same_quantization_params(c, quant_node, graph):
                     return False
-                if c.output[0] in graph.outputs:
+                if c.output[0] in c.graph.outputs:
                     return False
         # All outputs are quantized. Push quantization up to input.
         for i in inp_indices:
@@ -78,6 +78,8 @@ class QDQOptimizer(GraphOptimizerBase):
             consumers = graph.find_output_consumers(node.output[i])
             for c in consumers:
                 graph.replace_all_inputs(c.output[0], node.output[i])
+                # a quantization nobody uses would be pushed up again and again
+                c.graph.remove_node(c.name)
 
         return True
 
-- 
2.43.0


From 157d2f347f37ecc471e58a38fa8e62c364095f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:27 +0000
Subject: [PATCH 102/111] fix: names of nested functions no longer clash in
 loops inside loops

Every TensorFlow function has its own names. As body graphs of If and Loop they
share the names of the graphs around them, so a loop inside of a loop gave an
invalid model or read the value of the outer loop.
---
 tf2onnx/tfonnx.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/tf2onnx/tfonnx.py b/tf2onnx/tfonnx.py
index 2629f2d..5ab468a 100644
--- a/tf2onnx/tfonnx.py
+++ b/tf2onnx/tfonnx.py
@@ -482,6 +482,19 @@ def graphs_from_tf(tf_graph, input_names, output_names, shape_override=None, con
         onnx_nodes, _, _, output_shapes, dtypes, _ = \
             tensorflow_to_onnx(func, shape_override, const_node_values, ignore_default, use_default)
 
+        # Every function has its own names but onnx body graphs see the names of the graphs around them
+        def scoped(name, scope=func.name):
+            return scope + "/" + name if name else name
+        for node in onnx_nodes:
+            node.name = scoped(node.name)
+            node.input[:] = [scoped(n) for n in node.input]
+            node.output[:] = [scoped(n) for n in node.output]
+        output_shapes = {scoped(k): v for k, v in output_shapes.items()}
+        dtypes = {scoped(k): v for k, v in dtypes.items()}
+        outputs_to_values = {scoped(k): v for k, v in outputs_to_values.items()}
+        f_inputs_names = [scoped(n) for n in f_inputs_names]
+        f_output_names = [scoped(n) for n in f_output_names]
+
         fg = Graph(onnx_nodes, output_shapes, dtypes, input_names=f_inputs_names, output_names=f_output_names,
                    is_subgraph=True, graph_name=func.name)
         fold_constants_using_tf(fg, outputs_to_values)
-- 
2.43.0


From c166e4fb496fe30f66aace5ee3727b59787ff9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:27 +0000
Subject: [PATCH 103/111] fix: a tensor list made from a tensor for a loop is
 an Identity with one input

---
 tf2onnx/onnx_opset/controlflow.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tf2onnx/onnx_opset/controlflow.py b/tf2onnx/onnx_opset/controlflow.py
index b7f3aec..d34f58f 100644
--- a/tf2onnx/onnx_opset/controlflow.py
+++ b/tf2onnx/onnx_opset/controlflow.py
@@ -349,6 +349,7 @@ class TensorListFromTensor:
             node.type = "Identity"
             ctx.copy_dtype(node.input[0], node.output[0])
             ctx.copy_shape(node.input[0], node.output[0])
+            ctx.replace_inputs(node, node.input[:1])
 
 
 @tf_op(["TensorListStack"])
-- 
2.43.0


From f8630092ebed4c4d1134fe93255a1fc9ff6c49bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:27 +0000
Subject: [PATCH 104/111] fix: a branch of a conditional that returns a tensor
 more than once

---
 tf2onnx/onnx_opset/controlflow.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/controlflow.py b/tf2onnx/onnx_opset/controlflow.py
index d34f58f..2b1502d 100644
--- a/tf2onnx/onnx_opset/controlflow.py
+++ b/tf2onnx/onnx_opset/controlflow.py
@@ -708,6 +708,11 @@ def wire_if_branch(parent_g, g, inputs, output_shapes, output_dtypes, scope, par
 
     prefix_graph(g, scope)
 
+    # a branch may return the same tensor more than once
+    for i, o in enumerate(g.outputs):
+        if o in g.outputs[:i]:
+            g.outputs[i] = g.make_node("Identity", [o], skip_conversion=True).output[0]
+
     for shape, dtype, output_name in zip(output_shapes, output_dtypes, g.outputs):
         g.set_shape(output_name, shape)
         g.set_dtype(output_name, dtype)
@@ -791,7 +796,6 @@ def prefix_graph(g, scope):
             for i, oname in enumerate(g.outputs):
                 if old_output == oname:
                     g.outputs[i] = new_output
-                    break
             g.replace_all_inputs(old_output, new_output, ops=ops)
         to_remove.append(node)
     for node in to_remove:
-- 
2.43.0


From 472938cc12e9e7cd66c99f74a6177c7d9bb2c6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:27 +0000
Subject: [PATCH 105/111] fix: type of a loop variable that starts as the
 maximum number of iterations

---
 tf2onnx/onnx_opset/controlflow.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/controlflow.py b/tf2onnx/onnx_opset/controlflow.py
index 2b1502d..f1f1c00 100644
--- a/tf2onnx/onnx_opset/controlflow.py
+++ b/tf2onnx/onnx_opset/controlflow.py
@@ -400,7 +400,8 @@ class While:
             if maximum_iterations != -1:
                 consumers = ctx.find_output_consumers(maximum_iterations_name)
                 external_consumers = [c for c in consumers if c != node and c.type != 'TensorListReserve']
-                if len(external_consumers) == 0:
+                is_loop_var = maximum_iterations_name in node.input[2:]
+                if len(external_consumers) == 0 and not is_loop_var:
                     ctx.remove_node(node.inputs[1].name)
                 else:
                     maximum_iterations_name = utils.make_name(node.inputs[1].name)
-- 
2.43.0


From d5dbcc73a67d54c03f9ea07a6b00940b5104703c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:16 +0000
Subject: [PATCH 106/111] fix: c and h of a non-tuple initial LSTM state were
 swapped

---
 tf2onnx/rewriter/lstm_rewriter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/rewriter/lstm_rewriter.py b/tf2onnx/rewriter/lstm_rewriter.py
index 8c2b1b0..a156000 100644
--- a/tf2onnx/rewriter/lstm_rewriter.py
+++ b/tf2onnx/rewriter/lstm_rewriter.py
@@ -344,7 +344,8 @@ class LSTMRewriter(LSTMRewriterBase):
         slice_node2 = GraphBuilder(self.g).make_slice(inputs_map)
         unsqueeze_node_2 = gb.make_unsqueeze({'data': slice_node2, "axes": [0]}, return_node=True)
 
-        return unsqueeze_node_1.output[0], unsqueeze_node_2.output[0]
+        # the state is the concatenation of c and h
+        return unsqueeze_node_2.output[0], unsqueeze_node_1.output[0]
 
     def _process_tuple_ch_init_nodes(self, context, i):
         h_init_input_id = context.state_variables["ht" + str(i)].enter_input_id
-- 
2.43.0


From 9414d5d58d0e04b820aa47fce93dff599e4feb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:16 +0000
Subject: [PATCH 107/111] fix: functional loops that only look like an LSTM or
 GRU layer became LSTM or GRU operators

---
 tf2onnx/rewriter/gru_tf2_rewriter.py  |  25 +++-
 tf2onnx/rewriter/lstm_tf2_rewriter.py |  39 ++++--
 tf2onnx/rewriter/rnn_utils.py         | 179 ++++++++++++++++++++++++++
 3 files changed, 230 insertions(+), 13 deletions(-)

diff --git a/tf2onnx/rewriter/gru_tf2_rewriter.py b/tf2onnx/rewriter/gru_tf2_rewriter.py
index cfe8aea..4148176 100644
--- a/tf2onnx/rewriter/gru_tf2_rewriter.py
+++ b/tf2onnx/rewriter/gru_tf2_rewriter.py
@@ -8,6 +8,7 @@ tf2onnx.rewriter.gru_tf2_rewriter - Rewrites GRU pattern used by tf2.
 from tf2onnx.graph_builder import GraphBuilder
 from tf2onnx.graph_matcher import GraphMatcher
 from tf2onnx.rewriter.gru_rewriter import GRUUnitRewriter
+from tf2onnx.rewriter import rnn_utils
 from tf2onnx.rewriter.rnn_utils import keras_gru_pattern, make_grucell_pattern
 from tf2onnx.rewriter.unit_rnn_rewriter_base import UnitRnnContext
 from tf2onnx.tf_loader import find_function
@@ -48,11 +49,14 @@ def rewrite_gru_tf2(g, ops):
             init_state_idx = g.input_names.index(init_state.output[0])
 
             cell_output = match_result.get_op("cell_output")
+            if not rnn_utils.is_gru_cell(g, cell_output.output[0], init_state.output[0], pattern is pattern2):
+                continue
             final_consumers = g.find_output_consumers(cell_output.output[0])
             select_ops = [n for n in final_consumers if n.type == "Select"]
             def has_tensor_list_consumer(n):
                 return any(c.type == "TensorListSetItem" for c in g.find_output_consumers(n.output[0]))
             select_ops = [n for n in select_ops if has_tensor_list_consumer(n)]
+            greater_eq = None
             if len(select_ops) == 1:
                 greater_eq = select_ops[0].inputs[0]
                 if greater_eq.type != "GreaterEqual":
@@ -72,6 +76,12 @@ def rewrite_gru_tf2(g, ops):
             if not tensor_set_items[0].inputs[0].is_graph_input():
                 continue
             out_idx = g.input_names.index(tensor_set_items[0].input[0])
+            step_info = rnn_utils.find_step_inputs(g, get_item, tensor_set_items[0], greater_eq)
+            if step_info is None:
+                continue
+            select = select_ops[0] if greater_eq is not None else None
+            if not rnn_utils.is_next_state(g, init_state_idx, cell_output.output[0], select):
+                continue
 
             hk = match_result.get_op("hidden_kernel")
             while hk.type == "Identity":
@@ -102,6 +112,7 @@ def rewrite_gru_tf2(g, ops):
                 continue
 
             g.gru_rewriter_context = {
+                **step_info,
                 "x_idx": x_idx,
                 "out_idx": out_idx,
                 "initial_state_idx": init_state_idx,
@@ -121,6 +132,11 @@ def rewrite_gru_tf2(g, ops):
             if body_graph.gru_rewriter_context is None:
                 continue
             body_context = body_graph.gru_rewriter_context
+            if op.inputs[body_context["x_idx"]].type != "TensorListFromTensor":
+                continue
+            cond_graph = find_function(op.get_attr_str("cond"))
+            if not rnn_utils.loop_runs_all_steps(g, op, body_context, cond_graph):
+                continue
             hk = op.input[body_context["hidden_kernel_idx"]]
             hb = op.input[body_context["hidden_bias_idx"]]
             gk = op.input[body_context["gate_kernel_idx"]]
@@ -146,9 +162,6 @@ def rewrite_gru_tf2(g, ops):
             context.attributes["activations"] = body_context["activations"]
             context.attributes["linear_before_reset"] = body_context["linear_before_reset"]
             tensor_array_inp = op.inputs[body_context["x_idx"]]
-            if not tensor_array_inp.type == "TensorListFromTensor":
-                continue
-
             final_consumers = g.find_output_consumers(op.output[body_context["out_idx"]])
             output_ys = [n.output[0] for n in final_consumers if n.type == "TensorListStack"]
 
@@ -162,7 +175,11 @@ def rewrite_gru_tf2(g, ops):
             gru_rewriter = GRUUnitRewriter(g)
             gru_rewriter.process_weights_and_bias(context)
             gru_node = gru_rewriter.create_rnn_node(context)
-            squeeze_output = GraphBuilder(g).make_squeeze({"data": gru_node.output[0], "axes": [1]})
+            if body_context["only_last"]:
+                # the list holds the output of the last step
+                squeeze_output = gru_node.output[1]
+            else:
+                squeeze_output = GraphBuilder(g).make_squeeze({"data": gru_node.output[0], "axes": [1]})
             for output in output_ys:
                 g.replace_all_inputs(output, squeeze_output)
 
diff --git a/tf2onnx/rewriter/lstm_tf2_rewriter.py b/tf2onnx/rewriter/lstm_tf2_rewriter.py
index aea8737..b1afd18 100644
--- a/tf2onnx/rewriter/lstm_tf2_rewriter.py
+++ b/tf2onnx/rewriter/lstm_tf2_rewriter.py
@@ -12,6 +12,7 @@ from tf2onnx.graph_builder import GraphBuilder
 from tf2onnx.graph_matcher import GraphMatcher
 from tf2onnx.rewriter.lstm_rewriter import LSTMRewriter
 from tf2onnx.rewriter.lstm_rewriter_base import LSTMContext
+from tf2onnx.rewriter import rnn_utils
 from tf2onnx.rewriter.rnn_utils import make_lstm_pattern
 from tf2onnx.tf_loader import find_function
 
@@ -63,6 +64,9 @@ def rewriter_lstm_tf2(g, ops):
 
             # extract input x_t
             from_keras = params.get("from_keras", False)
+            ht = match_result.get_op("ht").output[0]
+            if rnn_utils.find_lstm_activations(g, ht, from_keras, is_ft_hard_sigmoid) != activations_fgh:
+                continue
             if from_keras:
                 get_item = match_result.get_op("xt")
             else:
@@ -84,6 +88,7 @@ def rewriter_lstm_tf2(g, ops):
             def has_tensor_list_consumer(n):
                 return any(c.type == "TensorListSetItem" for c in g.find_output_consumers(n.output[0]))
             select_ops = [n for n in select_ops if has_tensor_list_consumer(n)]
+            greater_eq = None
             if len(select_ops) == 1:
                 greater_eq = select_ops[0].inputs[0]
                 if greater_eq.type != "GreaterEqual":
@@ -103,6 +108,10 @@ def rewriter_lstm_tf2(g, ops):
             if not tensor_set_items[0].inputs[0].is_graph_input():
                 continue
             out_idx = g.input_names.index(tensor_set_items[0].input[0])
+            step_info = rnn_utils.find_step_inputs(g, get_item, tensor_set_items[0], greater_eq)
+            if step_info is None:
+                continue
+            select = select_ops[0] if greater_eq is not None else None
 
             # extract input h_(t-1) and c_(t-1)
             init_state = match_result.get_op("ht-1") if from_keras else concat.inputs[1]
@@ -113,6 +122,9 @@ def rewriter_lstm_tf2(g, ops):
                 if not c_e.is_graph_input():
                     continue
                 c_idx = g.input_names.index(c_e.output[0])
+                if not rnn_utils.is_next_state(g, h_idx, ht, select) or \
+                        not rnn_utils.is_next_state(g, c_idx, match_result.get_op("ct").output[0], select):
+                    continue
                 ch_info = {
                     "state_is_tuple": True,
                     "c_idx": c_idx,
@@ -201,6 +213,7 @@ def rewriter_lstm_tf2(g, ops):
                 "bias_idx": b_idx,
                 "from_keras": from_keras,
                 "activations_fgh": activations_fgh,
+                **step_info, # {time_idx, only_last}
                 **ch_info, # {state_is_tuple, h_idx, c_idx} or {state_is_tuple, ch_idx}
 
                 # TF
@@ -218,30 +231,37 @@ def rewriter_lstm_tf2(g, ops):
             if body_graph.lstm_rewriter_context is None:
                 continue
             body_context = body_graph.lstm_rewriter_context
+            if op.inputs[body_context["x_idx"]].type != "TensorListFromTensor":
+                continue
+            cond_graph = find_function(op.get_attr_str("cond"))
+            if not rnn_utils.loop_runs_all_steps(g, op, body_context, cond_graph):
+                continue
 
             # parse weights
             consts = []
             if body_context["from_keras"]:
                 wx = op.input[body_context["w_idx"]]
                 wh = op.input[body_context["r_idx"]]
-                wx_const = g.get_tensor_value(wx, as_list=False)
-                wh_const = g.get_tensor_value(wh, as_list=False)
                 consts.extend([wx, wh])
             else:
                 w = op.input[body_context["weight_idx"]]
-                w_const = g.get_tensor_value(w, as_list=False)
                 consts.append(w)
 
             # parse bias
             if body_context["bias_idx"] is not None:
                 b = op.input[body_context["bias_idx"]]
-                b_const = g.get_tensor_value(b, as_list=False)
                 consts.append(b)
             else:
-                b_const = None
+                b = None
 
             if not all(g.is_const(c) for c in consts):
                 continue
+            b_const = g.get_tensor_value(b, as_list=False) if b is not None else None
+            if body_context["from_keras"]:
+                wx_const = g.get_tensor_value(wx, as_list=False)
+                wh_const = g.get_tensor_value(wh, as_list=False)
+            else:
+                w_const = g.get_tensor_value(w, as_list=False)
 
             # parse states
             if body_context["state_is_tuple"]:
@@ -275,9 +295,6 @@ def rewriter_lstm_tf2(g, ops):
             context.hidden_size.append(None)
             context.attributes.append({"activations": body_context['activations_fgh']})
             tensor_array_inp = op.inputs[body_context["x_idx"]]
-            if not tensor_array_inp.type == "TensorListFromTensor":
-                continue
-
             final_consumers = g.find_output_consumers(op.output[body_context["out_idx"]])
             output_ys = [n.output[0] for n in final_consumers if n.type == "TensorListStack"]
 
@@ -295,7 +312,11 @@ def rewriter_lstm_tf2(g, ops):
             lstm_rewriter.process_weights_and_bias(context)
             lstm_node = lstm_rewriter.create_rnn_node(context)[0]
 
-            squeeze_output = GraphBuilder(g).make_squeeze({"data": lstm_node.output[0], "axes": [1]})
+            if body_context["only_last"]:
+                # the list holds the output of the last step
+                squeeze_output = lstm_node.output[1]
+            else:
+                squeeze_output = GraphBuilder(g).make_squeeze({"data": lstm_node.output[0], "axes": [1]})
             for output in output_ys:
                 g.replace_all_inputs(output, squeeze_output)
 
diff --git a/tf2onnx/rewriter/rnn_utils.py b/tf2onnx/rewriter/rnn_utils.py
index 9cd2f2a..5f394ab 100644
--- a/tf2onnx/rewriter/rnn_utils.py
+++ b/tf2onnx/rewriter/rnn_utils.py
@@ -458,6 +458,185 @@ def get_weights_from_const_node(g, node):
     return val
 
 
+def skip_identities(g, output):
+    """Returns the tensor that output is a copy of."""
+    node = g.get_node_by_output(output)
+    while node is not None and node.type == "Identity":
+        output = node.input[0]
+        node = g.get_node_by_output(output)
+    return output
+
+
+def is_const_of(g, output, value):
+    """Returns True if output is a constant with all elements equal to value."""
+    node = g.get_node_by_output(skip_identities(g, output))
+    return node is not None and node.is_const() and bool(np.all(node.get_tensor_value(as_list=False) == value))
+
+
+def _operands(g, output, *types):
+    """Returns both orders of the operands of a commutative operator, or nothing if output is from another operator."""
+    node = g.get_node_by_output(output)
+    if node is None or node.type not in types or len(node.input) != 2:
+        return []
+    return [(node.input[0], node.input[1]), (node.input[1], node.input[0])]
+
+
+def _split_part(g, output):
+    node = g.get_node_by_output(output)
+    if node is None or node.type != "Split":
+        return None, None
+    return node, node.output.index(output)
+
+
+def _activation_input(g, output, hard_sigmoid=False):
+    """Returns the input and the type of an activation"""
+    node = g.get_node_by_output(output)
+    if not hard_sigmoid:
+        return (node.input[0], node.type) if node is not None and len(node.input) == 1 else (None, None)
+    for op_type, value in [("Maximum", 0), ("Minimum", 1), ("Add", 0.5), ("Mul", 0.2)]:
+        if node is None or node.type not in [op_type, op_type + "V2"] \
+                or not is_const_of(g, node.input[1], np.float32(value)):
+            return None, None
+        output = node.input[0]
+        node = g.get_node_by_output(output)
+    return output, "HardSigmoid"
+
+
+def find_lstm_activations(g, ht, from_keras=False, hard_sigmoid=False):
+    """
+    Checks that ht is computed from the parts of the split gates like a lstm cell does it.
+    Returns the activations of the gates, of the candidate and of the output, or None if this is another computation.
+    """
+    order = "ifco" if from_keras else "icfo"
+
+    def gate(output, name, hard=False):
+        data, act = _activation_input(g, output, hard)
+        if data is None:
+            return None, None
+        parts = [data]
+        if name == "f" and not from_keras:
+            parts = [x for x, bias in _operands(g, data, "Add", "AddV2")]
+        for part in parts:
+            split, i = _split_part(g, part)
+            if split is not None and order[i] == name:
+                return split, act
+        return None, None
+
+    for o, hc in _operands(g, ht, "Mul"):
+        split, act_o = gate(o, "o", hard_sigmoid)
+        ct, act_h = _activation_input(g, hc)
+        if split is None or ct is None:
+            continue
+        for fc, ic in _operands(g, ct, "Add", "AddV2"):
+            gates_f = [gate(f, "f", hard_sigmoid) for f, _ in _operands(g, fc, "Mul")]
+            gates_i = [gate(i, "i", hard_sigmoid) + gate(c, "c") for i, c in _operands(g, ic, "Mul")]
+            for split_f, act_f in gates_f:
+                for split_i, act_i, split_c, act_c in gates_i:
+                    if split is split_f is split_i is split_c and act_o == act_f == act_i:
+                        return [act_f, act_c, act_h]
+    return None
+
+
+def is_gru_cell(g, cell_output, state, from_keras=False):
+    """Checks that cell_output is computed from state and the parts of the split gates like a gru cell does it."""
+    def gate(output, index):
+        if not from_keras:
+            return _split_part(g, output)[1] == index
+        data, act = _activation_input(g, output)
+        return act == "Sigmoid" and any(_split_part(g, x)[1] == index and _split_part(g, y)[1] == index
+                                        for x, y in _operands(g, data, "Add", "AddV2"))
+
+    def is_state(output):
+        return skip_identities(g, output) == skip_identities(g, state)
+
+    z, r = (0, 1) if from_keras else (1, 0)
+
+    def is_candidate(output):
+        data, _ = _activation_input(g, output)
+        if from_keras:
+            return any(_split_part(g, x)[1] == 2 and _split_part(g, h)[1] == 2 and gate(reset, r)
+                       for x, y in _operands(g, data, "Add", "AddV2") for reset, h in _operands(g, y, "Mul"))
+        bias_add = g.get_node_by_output(data)
+        matmul = g.get_node_by_output(bias_add.input[0]) if bias_add is not None and bias_add.input else None
+        if matmul is None or matmul.type != "MatMul":
+            return False
+        concat = matmul.inputs[0]
+        return len(concat.inputs) == 3 and any(gate(reset, r) and is_state(h)
+                                               for reset, h in _operands(g, concat.input[1], "Mul"))
+
+    for old, new in _operands(g, cell_output, "Add", "AddV2"):
+        if not any(gate(u, z) and is_state(h) for u, h in _operands(g, old, "Mul")):
+            continue
+        for keep, cand in _operands(g, new, "Mul"):
+            sub = g.get_node_by_output(keep)
+            if sub is not None and sub.type == "Sub" and is_const_of(g, sub.input[0], 1) and gate(sub.input[1], z) \
+                    and is_candidate(cand):
+                return True
+    return False
+
+
+def is_next_state(g, index, value, select=None):
+    """
+    Checks that value is what the body g of a loop returns for its loop variable,
+    or select between the old state and value
+    """
+    output = skip_identities(g, g.outputs[index])
+    if output == value:
+        return True
+    node = g.get_node_by_output(output)
+    return select is not None and node is not None and node.type in ["Select", "SelectV2"] \
+        and node.input[0] == select.input[0] and skip_identities(g, node.input[1]) == g.input_names[index] \
+        and node.input[2] == value
+
+
+def find_step_inputs(g, get_item, set_item, greater_eq=None):
+    """
+    Checks that the body g of a loop reads and writes one element of the tensor lists in each step.
+    Returns the indices of the loop variable that counts the steps and if only one element is written, or None.
+    """
+    time = skip_identities(g, get_item.input[1])
+    if time not in g.input_names:
+        return None
+    time_idx = g.input_names.index(time)
+    if not any(skip_identities(g, t) == time and is_const_of(g, one, 1)
+               for t, one in _operands(g, skip_identities(g, g.outputs[time_idx]), "Add", "AddV2")):
+        return None
+    if greater_eq is not None and skip_identities(g, greater_eq.input[0]) != time:
+        return None
+    out_idx = g.input_names.index(set_item.input[0])
+    if skip_identities(g, g.outputs[out_idx]) != set_item.output[0]:
+        return None
+    only_last = is_const_of(g, set_item.input[1], 0)
+    if not only_last and skip_identities(g, set_item.input[1]) != time:
+        return None
+    return {"time_idx": time_idx, "only_last": only_last}
+
+
+def loop_runs_all_steps(g, op, context, cond_graph):
+    """Checks that the loop op starts at the first element of its input and nothing says that it stops before the last"""
+    if not is_const_of(g, op.input[context["time_idx"]], 0):
+        return False
+    if context["only_last"]:
+        reserve = g.get_node_by_output(skip_identities(g, op.input[context["out_idx"]]))
+        if context["seq_len_idx"] is not None or reserve.type != "TensorListReserve" \
+                or not is_const_of(g, reserve.input[1], 1):
+            return False
+    shape = g.get_shape(op.inputs[context["x_idx"]].input[0])
+    steps = shape[0] if shape else -1
+    time = cond_graph.input_names[context["time_idx"]]
+    for node in cond_graph.get_nodes():
+        if node.type != "Less" or skip_identities(cond_graph, node.input[0]) != time:
+            continue
+        limit = skip_identities(cond_graph, node.input[1])
+        graph = cond_graph
+        if limit in cond_graph.input_names:
+            graph, limit = g, op.input[cond_graph.input_names.index(limit)]
+        limit = graph.get_node_by_output(skip_identities(graph, limit))
+        if limit is not None and limit.is_const() and limit.get_tensor_value() != steps:
+            return False
+    return True
+
+
 ######################################################
 ####      Utilities for bidirectional rnn      #######
 ######################################################
-- 
2.43.0


From 91fa34d6c3b6682a759150363cb3d78fa7a05b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:16 +0000
Subject: [PATCH 108/111] fix: activations and wrappers of v1 LSTM and GRU
 cells were ignored

---
 tf2onnx/rewriter/gru_rewriter.py           | 16 +++++++++++--
 tf2onnx/rewriter/lstm_rewriter.py          | 27 ++++++++++++++++++++--
 tf2onnx/rewriter/unit_rnn_rewriter_base.py | 15 ++++++++++++
 3 files changed, 54 insertions(+), 4 deletions(-)

diff --git a/tf2onnx/rewriter/gru_rewriter.py b/tf2onnx/rewriter/gru_rewriter.py
index dd105b9..80c1047 100644
--- a/tf2onnx/rewriter/gru_rewriter.py
+++ b/tf2onnx/rewriter/gru_rewriter.py
@@ -11,7 +11,7 @@ import numpy as np
 
 from tf2onnx import utils
 from tf2onnx.graph_builder import GraphBuilder
-from tf2onnx.rewriter.rnn_utils import RNNUnitType, get_weights_from_const_node
+from tf2onnx.rewriter.rnn_utils import RNNUnitType, get_weights_from_const_node, is_gru_cell
 from tf2onnx.rewriter.unit_rnn_rewriter_base import UnitRnnRewriterBase
 
 # pylint: disable=invalid-name,unused-argument,missing-docstring
@@ -122,6 +122,8 @@ class GRUUnitRewriter(UnitRnnRewriterBase):
         if self.gru_cell_type == RNNUnitType.GRUCell:
             activation_op = match.get_op("optional_activation")
             activations = ["Sigmoid", activation_op.type]
+            if activation_op.type not in ["Relu", "Tanh", "Sigmoid", "Elu", "Softsign", "Softplus"]:
+                return False
         context.attributes["activations"] = activations
         return True
 
@@ -138,7 +140,17 @@ class GRUUnitRewriter(UnitRnnRewriterBase):
         if len(outputs) > 1:
             logger.debug("found %d outputs for gru: %s", len(outputs), outputs)
             return False
-        return True
+
+        x = context.loop_properties.scan_inputs[0].id
+        match = context.cell_match
+        if self.gru_cell_type == RNNUnitType.GRUBlockCell:
+            cell = match.get_op("gru_block_cell")
+            return self.is_same_value(cell.input[0], x) and self.is_rnn_output(context, cell.output[3])
+        cell = match.get_op("cell_inputs")
+        output = match.get_op("cell_output").output[0]
+        if not self.is_same_value(cell.input[0], x) or not self.is_rnn_output(context, output):
+            return False
+        return self.gru_cell_type != RNNUnitType.GRUCell or is_gru_cell(self.g, output, cell.input[1])
 
     def _make_constants(self, context, W_zrh, R_zrh, B_zrh):
         input_size = W_zrh.shape[-1]
diff --git a/tf2onnx/rewriter/lstm_rewriter.py b/tf2onnx/rewriter/lstm_rewriter.py
index a156000..beb4b4d 100644
--- a/tf2onnx/rewriter/lstm_rewriter.py
+++ b/tf2onnx/rewriter/lstm_rewriter.py
@@ -12,7 +12,7 @@ import numpy as np
 from tf2onnx import utils
 from tf2onnx.graph_builder import GraphBuilder
 from tf2onnx.rewriter.lstm_rewriter_base import LSTMRewriterBase
-from tf2onnx.rewriter.rnn_utils import RNNUnitType, get_weights_from_const_node
+from tf2onnx.rewriter.rnn_utils import RNNUnitType, find_lstm_activations, get_weights_from_const_node
 from tf2onnx.utils import is_tf_concat_op, is_tf_slice_op
 
 # pylint: disable=invalid-name,unused-argument,missing-docstring
@@ -139,6 +139,15 @@ class LSTMRewriter(LSTMRewriterBase):
             use_peephole = lstm_block_cell.get_attr_value("use_peephole")
             if use_peephole:
                 return False
+            return True
+
+        for i in range(self.num_lstm_layers):
+            activations = find_lstm_activations(self.g, context.cell_match[i].get_op("ht").output[0])
+            if activations is None:
+                logger.debug("gates of the cell are not the ones of a lstm, SKIP")
+                return False
+            if activations != ["Sigmoid", "Tanh", "Tanh"]:
+                context.attributes[i]["activations"] = activations
         return True
 
     def _ct_variable_finder(self, context, i):
@@ -216,7 +225,21 @@ class LSTMRewriter(LSTMRewriterBase):
         if len(outputs) > 1:
             logger.debug("found %d outputs for lstm: %s", len(outputs), outputs)
             return False
-        return True
+
+        # each layer reads the output of the layer before, the output is the one of the last layer
+        x = context.loop_properties.scan_inputs[0].id
+        for cell_match in context.cell_match:
+            if self.lstm_cell_type == RNNUnitType.LSTMBlockCell:
+                cell = cell_match.get_op("lstm_block_cell")
+                ht = cell.output[6]
+            else:
+                cell = cell_match.get_op("xh")
+                ht = cell_match.get_op("ht").output[0]
+            if not self.is_same_value(cell.input[0], x):
+                logger.debug("the input of the cell is not the one of the layer, SKIP")
+                return False
+            x = ht
+        return self.is_rnn_output(context, x)
 
     def _convert_gates_icfo_to_iofc(self, gates, axis=0):
         # from Tensorflow
diff --git a/tf2onnx/rewriter/unit_rnn_rewriter_base.py b/tf2onnx/rewriter/unit_rnn_rewriter_base.py
index 7416485..bb34206 100644
--- a/tf2onnx/rewriter/unit_rnn_rewriter_base.py
+++ b/tf2onnx/rewriter/unit_rnn_rewriter_base.py
@@ -17,6 +17,7 @@ from tf2onnx.rewriter.rnn_utils import (
     parse_rnn_loop,
     seq_len_pattern0,
     seq_len_pattern1,
+    skip_identities,
 )
 from tf2onnx.utils import is_tf_select_op, is_tf_tensor_array_write_op
 
@@ -86,6 +87,20 @@ class UnitRnnRewriterBase(LoopRewriterBase):
     def is_valid(self, context):
         return True
 
+    def is_same_value(self, output, value):
+        return skip_identities(self.g, output) == skip_identities(self.g, value)
+
+    def is_rnn_output(self, context, value):
+        """Checks that the loop collects value, or select between zeros and value"""
+        for output in context.loop_properties.scan_outputs:
+            node = self.g.get_node_by_output(skip_identities(self.g, output.id))
+            if node is not None and is_tf_select_op(node) and self.is_same_value(node.input[2], value):
+                continue
+            if not self.is_same_value(output.id, value):
+                logger.debug("the output of the loop is not the one of the cell, SKIP")
+                return False
+        return True
+
     def parse_unit_rnn(self, context):
         """
         parse needed info from tensorflow graph:
-- 
2.43.0


From f7b03222f8b25b75a451f6ec0b0cf3534d0804c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:16 +0000
Subject: [PATCH 109/111] fix: reversed inputs, sequence lengths and
 activations of a pair of RNNs that becomes bidirectional

---
 tf2onnx/rewriter/bilstm_rewriter.py | 10 ++--
 tf2onnx/rewriter/rnn_utils.py       | 73 +++++++++++++++++++++--------
 2 files changed, 59 insertions(+), 24 deletions(-)

diff --git a/tf2onnx/rewriter/bilstm_rewriter.py b/tf2onnx/rewriter/bilstm_rewriter.py
index b59e051..2ed87ba 100644
--- a/tf2onnx/rewriter/bilstm_rewriter.py
+++ b/tf2onnx/rewriter/bilstm_rewriter.py
@@ -63,10 +63,12 @@ def process_bilstm(g, bi_lstms):
             if attr_val:
                 attr[name] = attr_val
         # activation has to be took care, attr here is proto
-        activations = [act.decode("utf-8")
-                       for act in lstm_fw.get_attr_value("activations", [])]
-        activations += [act.decode("utf-8")
-                        for act in lstm_bw.get_attr_value("activations", [])]
+        default_activations = [b"Sigmoid", b"Tanh", b"Tanh"]
+        activations = []
+        if lstm_fw.get_attr("activations") or lstm_bw.get_attr("activations"):
+            for lstm in (lstm_fw, lstm_bw):
+                activations += [act.decode("utf-8")
+                                for act in lstm.get_attr_value("activations", default_activations)]
         if activations:
             attr["activations"] = activations
 
diff --git a/tf2onnx/rewriter/rnn_utils.py b/tf2onnx/rewriter/rnn_utils.py
index 5f394ab..654eefc 100644
--- a/tf2onnx/rewriter/rnn_utils.py
+++ b/tf2onnx/rewriter/rnn_utils.py
@@ -683,17 +683,17 @@ def find_bidirectional_rnns(g, ops, rnn_type):
         temp = n.inputs[0]
         is_bw = False
         is_transposed = False
-        if temp.type == "Transpose":
+        if is_time_batch_transpose(temp):
             input_id = temp.input[0]
             temp = temp.inputs[0]
             is_transposed = True
 
-        if utils.is_tf_reverse_op(temp):
+        if is_time_reverse(g, temp, 1 if is_transposed else 0, n):
             input_id = temp.input[0]
             temp = temp.inputs[0]
             is_bw = True
 
-        if (not is_transposed) and temp.type == "Transpose":
+        if (not is_transposed) and is_time_batch_transpose(temp):
             input_id = temp.input[0]
             temp = temp.inputs[0]
 
@@ -757,6 +757,9 @@ def belong_to_birnn(g, fw_rnn, bw_rnn, rnn_type):
     seq_len_index = onnx_rnn_seq_len_index_mapping[rnn_type]
     fw_seq_len = fw_rnn.input[seq_len_index]
     bw_seq_len = bw_rnn.input[seq_len_index]
+    if bool(fw_seq_len) != bool(bw_seq_len):
+        logger.debug("only one of fw_rnn and bw_rnn has sequence lengths")
+        return False
     if not utils.have_same_inference_value(g, fw_seq_len, bw_seq_len):
         logger.debug(
             "fw_rnn and bw_rnn have different seq_len input: %s, %s",
@@ -777,6 +780,38 @@ def is_tail_slice_op(node):
     )
 
 
+def is_time_batch_transpose(node):
+    """Checks that node swaps the batch and the time dimension"""
+    if node.type != "Transpose":
+        return False
+    perm = node.get_attr_value("perm")
+    if perm is None and len(node.input) > 1 and node.inputs[1].is_const():
+        perm = node.inputs[1].get_tensor_value()
+    return perm is not None and list(perm) == [1, 0, 2]
+
+
+def is_time_reverse(g, node, time_axis, rnn):
+    """Checks that node reverses the steps that rnn runs"""
+    seq_len = rnn.input[4] if len(rnn.input) > 4 else ""
+    if node.type == "ReverseV2":
+        axis = node.inputs[1].get_tensor_value(as_list=False) if node.inputs[1].is_const() else None
+        return not seq_len and axis is not None and list(np.reshape(axis, [-1])) in [[time_axis], [time_axis - 3]]
+    if node.type == "ReverseSequence":
+        batch_dim = node.get_attr_value("batch_dim", 0)
+        return node.get_attr_value("seq_dim") == time_axis and batch_dim == 1 - time_axis and bool(seq_len) and \
+            utils.have_same_inference_value(g, skip_casts(g, node.input[1]), skip_casts(g, seq_len))
+    return False
+
+
+def skip_casts(g, output):
+    """Returns the tensor of which output is a copy, maybe in another type"""
+    node = g.get_node_by_output(output)
+    while node is not None and node.type in ["Identity", "Cast"]:
+        output = node.input[0]
+        node = g.get_node_by_output(output)
+    return output
+
+
 def get_reverse_or_slice_nodes_after_y_output(g, rnn_bw):
     bw_consumers = g.find_output_consumers(rnn_bw.output[0])
 
@@ -786,8 +821,10 @@ def get_reverse_or_slice_nodes_after_y_output(g, rnn_bw):
     if s_cnt == 1:
         s = squeeze_nodes[0]
         reverse_or_slice_nodes = g.find_output_consumers(s.output[0])
+        time_axis = 0
         if len(reverse_or_slice_nodes) == 1:
-            if reverse_or_slice_nodes[0].type == "Transpose":
+            if is_time_batch_transpose(reverse_or_slice_nodes[0]):
+                time_axis = 1
                 reverse_or_slice_nodes = g.find_output_consumers(reverse_or_slice_nodes[0].output[0])
 
             if len(reverse_or_slice_nodes) == 1 and reverse_or_slice_nodes[0].type == "Identity":
@@ -796,7 +833,8 @@ def get_reverse_or_slice_nodes_after_y_output(g, rnn_bw):
                     reverse_or_slice_nodes = g.find_output_consumers(reverse_or_slice_nodes[0].output[0])
 
             are_all_reverse_or_slice = all([
-                utils.is_tf_reverse_op(r_op) or is_tail_slice_op(r_op)
+                is_time_reverse(g, r_op, time_axis, rnn_bw) or
+                (is_tail_slice_op(r_op) and time_axis == 0 and not rnn_bw.input[4])
                 for r_op in reverse_or_slice_nodes
             ])
             if are_all_reverse_or_slice:
@@ -888,18 +926,13 @@ def slice_birnn_for_original_rnn_consumers(g, rnn_fw, rnn_bw, bi_rnn, rnn_output
 
 
 def remove_reverse_in_bw_input(g, bw_rnn_input_x, rnn_type):
-    old_x_consumers = g.find_output_consumers(bw_rnn_input_x)
-    # the transpose/reverse here must be followed by RNN if it is still useful.
-    # this is guaranteed by dynamic_rnn logic.
-    old_x_has_rnn_as_consumer = [n for n in old_x_consumers if n.type == onnx_rnn_type_mapping[rnn_type]]
-    if not old_x_has_rnn_as_consumer:
-        logger.debug("plan to remove useless reverse op in bw")
-        reverse_node = g.get_node_by_output(bw_rnn_input_x)
-
-        if reverse_node.type == "Transpose":
-            reverse_node = reverse_node.inputs[0]
-
-        g.replace_all_inputs(reverse_node.output[0], reverse_node.input[0])  # ops=g.get_nodes()
-        g.remove_node(reverse_node.name)
-    else:
-        raise ValueError("Reverse is still used by RNN as input, cannot remove")
+    for op_type in ["Transpose", None]:
+        node = g.get_node_by_output(bw_rnn_input_x)
+        if op_type is not None and node.type != op_type:
+            continue
+        if g.find_output_consumers(bw_rnn_input_x) or bw_rnn_input_x in g.outputs:
+            logger.debug("reverse op in bw still has other consumers")
+            return
+        logger.debug("remove useless %s op in bw", node.type)
+        bw_rnn_input_x = node.input[0]
+        g.remove_node(node.name)
-- 
2.43.0


From 0a45140c8d1d790b93df2a72837d6ba398c74c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:29 +0000
Subject: [PATCH 110/111] fix: lookup of a handler in a domain misses its
 newest version

---
 tf2onnx/handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/handler.py b/tf2onnx/handler.py
index d0786b2..384b6e8 100644
--- a/tf2onnx/handler.py
+++ b/tf2onnx/handler.py
@@ -91,7 +91,7 @@ class tf_op:
                 m = mapping.get(domain)
                 if m:
                     if target_opset <= m and op_map:
-                        domain_to_ops_mapping[domain].update(ops_mapping)
+                        domain_to_ops_mapping[domain].update(op_map)
                         ops_mapping.update(op_map)
 
         tf_op._MAPPING = ops_mapping
-- 
2.43.0


From 60e937f676ed9306a835e0677d65cee2c8e9f9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:35 +0000
Subject: [PATCH 111/111] fix: conversion changes the shape_override of its
 caller

---
 tf2onnx/tf_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tf2onnx/tf_utils.py b/tf2onnx/tf_utils.py
index f51edab..4a778cc 100644
--- a/tf2onnx/tf_utils.py
+++ b/tf2onnx/tf_utils.py
@@ -474,6 +474,9 @@ def tflist_to_onnx(g, shape_override, const_node_values=None, ignore_default=Non
             shape = shape_override.get(out.name)
             if shape is None:
                 shape = get_tf_tensor_shape(out)
+            else:
+                # the graph changes its shapes in place: leave the ones of the caller alone
+                shape = list(shape)
             dtypes[out.name] = map_tf_dtype(out.dtype)
             output_shapes[out.name] = shape
 
-- 
2.43.0

