From 0bd0c13be25f9c6c654f880d3e19bc338e0e5815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:15 +0000
Subject: [PATCH 001/114] fix: StridedSlice mishandled masks, new axes,
 ellipsis and empty negative ranges

---
 tf2onnx/onnx_opset/tensor.py | 229 ++++++++++++++---------------------
 1 file changed, 91 insertions(+), 138 deletions(-)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index da07549..95b58e6 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -872,10 +872,6 @@ class StridedSlice:
             axes.append(idx + ellipsis_gap)
             end_item = end[idx]
 
-            # an implicit condition is stride == 1 (checked in above)
-            if begin_item < 0 and end_item == 0:
-                end_item = max_size
-
             mask = (shrink_axis_mask >> idx) & 1
             if mask != 0:
                 new_begin.append(begin_item)
@@ -995,160 +991,117 @@ class StridedSlice:
         )
         param_rank = param_shape[0]
 
-        if new_axis_mask != 0:
-            unqueeze_at = []
-            ellipsis_gap = 0
-            num_new = 0
-            for bit in range(32):
-                if (new_axis_mask >> bit) & 1 == 1:
-                    num_new += 1
-                if (ellipsis_mask >> bit) & 1:
-                    input_shape = ctx.get_shape(input_x)
-                    # calculate what rank for ellipsis: input rank - (being rank - all new_axis - 1)
-                    ellipsis_gap = len(input_shape) - param_rank + num_new + 1
-                if (new_axis_mask >> bit) & 1 == 1:
-                    unqueeze_at.append(bit + ellipsis_gap)
-                    begin_mask |= 1 << bit
-                    end_mask |= 1 << bit
-
-            if ellipsis_mask:
-                unqueeze_at = []
-                ellipsis_gap = 0
-                num_new = 0
-                end_mask = node.get_attr("end_mask")
-                end_mask = end_mask.i if end_mask is not None else 0
-                begin_mask = node.get_attr("begin_mask")
-                begin_mask = begin_mask.i if begin_mask is not None else 0
-
-                for bit in range(32):
-                    new_axis_flag = (new_axis_mask >> bit) & 1
-                    ellipsis_flag = (ellipsis_mask >> bit) & 1
-                    num_new += not ellipsis_flag and new_axis_flag
-
-                for bit in range(32):
-                    if (ellipsis_mask >> bit) & 1:
-                        ellipsis_gap = len(ctx.get_shape(input_x)) - param_rank + num_new + 1
-                    elif (new_axis_mask >> bit) & 1:
-                        effective_bit = bit if not ellipsis_gap else bit + ellipsis_gap - 1
-                        unqueeze_at.append(effective_bit)
-                        begin_mask |= 1 << bit
-                        end_mask |= 1 << bit
-
-            input_x = GraphBuilder(ctx).make_unsqueeze(
-                {'data': input_x, 'axes': unqueeze_at})
+        # the ellipsis takes precedence over a new axis, a new axis over a shrinked one
+        new_axis_mask &= ~ellipsis_mask
+        shrink_axis_mask &= ~new_axis_mask
+        num_new = sum((new_axis_mask >> idx) & 1 for idx in range(param_rank))
 
+        # how many more axes the ellipsis stands for than the one it takes in begin/end/strides
+        ellipsis_gap = 0
+        if ellipsis_mask:
+            input_shape = ctx.get_shape(input_x)
+            utils.make_sure(
+                input_shape is not None,
+                "StridedSlice op {} requires the shape of input".format(node.name)
+            )
+            ellipsis_gap = len(input_shape) + num_new - param_rank
 
-        # use in onnx graph to mask begin
-        new_begin_mask = [1] * param_rank
-        # use in onnx graph to mask end
-        new_end_mask = [min_size] * param_rank
-        # for shrink mask, if shrink mask is 1, set stride to be max_size
-        shrink_strided_mask = [min_size] * param_rank
+        # positions in begin/end/strides that slice an axis, all but the one of the ellipsis
+        spec = []
         axes = []
+        unsqueeze_at = []
         # onnx slice op can't remove a axis, track axis and add a squeeze op if needed
         needs_squeeze = []
-        ellipsis_gap = 0
+        gap = 0
         for idx in range(param_rank):
             if (ellipsis_mask >> idx) & 1:
-                input_shape = ctx.get_shape(input_x)
-                utils.make_sure(
-                    input_shape is not None,
-                    "StridedSlice op {} requires the shape of input".format(node.name)
-                )
-                ellipsis_gap = len(input_shape) - param_rank
-                # handle the redundant param
-                new_begin_mask[idx] = 0
-                new_end_mask[idx] = max_size
-                axes.append(idx)
+                gap = ellipsis_gap
                 continue
+            spec.append(idx)
+            axes.append(idx + gap)
+            if (new_axis_mask >> idx) & 1:
+                unsqueeze_at.append(idx + gap)
+            if (shrink_axis_mask >> idx) & 1:
+                needs_squeeze.append(idx + gap)
+
+        if unsqueeze_at:
+            input_x = GraphBuilder(ctx).make_unsqueeze(
+                {'data': input_x, 'axes': unsqueeze_at})
 
-            # ignore ellipsis axes
-            axes.append(idx + ellipsis_gap)
-
-            mask = (shrink_axis_mask >> idx) & 1
-            if mask != 0:
-                shrink_strided_mask[idx] = max_size
-                new_end_mask[idx] = max_size
-                needs_squeeze.append(idx + ellipsis_gap)
-                continue
+        def flags(mask):
+            return np.array([(mask >> idx) & 1 for idx in spec], dtype=bool)
 
-            mask = (begin_mask >> idx) & 1
-            if mask != 0:
-                new_begin_mask[idx] = 0
-
-            mask = (end_mask >> idx) & 1
-            if mask != 0:
-                new_end_mask[idx] = max_size
+        is_new = flags(new_axis_mask)
+        is_shrink = flags(shrink_axis_mask)
+        # a shrinked axis ignores the masks: it starts at begin and takes one element
+        begin_masked = flags(begin_mask) & ~is_shrink | is_new
+        end_masked = flags(end_mask) | is_shrink | is_new
 
         out_dtypes = [ctx.get_dtype(node.output[0])]
         out_shapes = [ctx.get_shape(node.output[0])]
         ctx.remove_node(node.name)
 
-        # mask begin
-        new_begin_mask = np.array(new_begin_mask, dtype=np_dtype)
-        if not np.all(new_begin_mask == 1):
-            if ctx.is_const(begin) and ctx.is_const(strides):
-                new_begin_vals = np.copy(ctx.get_tensor_value(begin, as_list=False))
-                strides_vals = ctx.get_tensor_value(strides, as_list=False)
-                idx1 = np.where(new_begin_mask == 0)
-                idx2 = np.where(strides_vals < 0)
-                idx3 = np.intersect1d(idx1, idx2)
-                new_begin_vals[idx3] = max_size
-                begin = ctx.make_const(utils.make_name("begin_masked"), new_begin_vals).output[0]
-            else:
-                begin_mask_const = ctx.make_const(utils.make_name("begin_mask"), np.equal(new_begin_mask, 0))
-                zero_const = ctx.make_const(utils.make_name("zero_const"), np.zeros(1, dtype=np_dtype))
-                max_const = ctx.make_const(utils.make_name("max_const"), np.array(max_size, dtype=np_dtype))
-                op1 = ctx.make_node("Less", [strides, zero_const.output[0]], op_name_scope=node.name)
-                op2 = ctx.make_node("And", [op1.output[0], begin_mask_const.output[0]], op_name_scope=node.name)
-                begin = ctx.make_node("Where", [op2.output[0], max_const.output[0], begin],
-                                      op_name_scope=node.name).output[0]
+        if not spec:
+            ctx.make_node("Identity", [input_x], name=node.name, outputs=node.output,
+                          dtypes=out_dtypes, shapes=out_shapes)
+            return
+
+        if len(spec) != param_rank:
+            spec_const = ctx.make_const(utils.make_name("spec"), np.array(spec, dtype=np.int64)).output[0]
+
+            def take_spec(name):
+                if ctx.is_const(name):
+                    val = ctx.get_tensor_value(name, as_list=False)
+                    return ctx.make_const(utils.make_name(node.name), val[spec]).output[0]
+                return ctx.make_node("Gather", [name, spec_const], op_name_scope=node.name).output[0]
+
+            begin, end, strides = take_spec(begin), take_spec(end), take_spec(strides)
+
+        def make_typed_const(name, val):
+            return ctx.make_const(utils.make_name(name), np.array(val, dtype=np_dtype)).output[0]
 
-        # mask end
-        new_end_mask = np.array(new_end_mask, dtype=np_dtype)
-        if not np.all(new_end_mask == min_size):
-            if ctx.is_const(end) and ctx.is_const(strides):
-                new_end_mask = np.maximum(ctx.get_tensor_value(end, as_list=False), new_end_mask)
-                idx = np.where(new_end_mask == max_size)
-                sign = np.sign(ctx.get_tensor_value(strides, as_list=False))[idx]
-                new_end_mask[idx] = new_end_mask[idx] * sign
-                end = ctx.make_const(utils.make_name("end_masked"), new_end_mask).output[0]
+        def make_flags(name, val):
+            return ctx.make_const(utils.make_name(name), val).output[0]
+
+        # a new axis takes all of its one element, a shrinked one only the element at begin
+        if is_new.any() or is_shrink.any():
+            new_strides = np.where(is_new, 1, max_size).astype(np_dtype)
+            replaced = is_new | is_shrink
+            if ctx.is_const(strides):
+                strides_val = ctx.get_tensor_value(strides, as_list=False)
+                strides = make_typed_const("strides_masked", np.where(replaced, new_strides, strides_val))
             else:
-                # Overlay new_end_mask with specified end values.
-                # Adjust max_size to min_size if steps are < 0
-                max_const = ctx.make_const(utils.make_name("max_const"), np.array(max_size, dtype=np_dtype))
-                min_const = ctx.make_const(utils.make_name("min_const"), np.array(min_size, dtype=np_dtype))
-                zero_const = ctx.make_const(utils.make_name("zero_const"), np.zeros(1, dtype=np_dtype))
-                end_mask_const = ctx.make_const(utils.make_name("end_mask"), np.array(new_end_mask, dtype=np_dtype))
-                outputname = utils.make_name("{}__newendmask".format(node.name))
-                new_end_mask = math.make_min_or_max_op(ctx, "Max", [end, end_mask_const.output[0]],
-                                                       [outputname])
-                op1 = ctx.make_node("Less", [strides, zero_const.output[0]], op_name_scope=node.name)
-                op2 = ctx.make_node("Equal", [new_end_mask.output[0], max_const.output[0]], op_name_scope=node.name)
-                op3 = ctx.make_node("And", [op2.output[0], op1.output[0]], op_name_scope=node.name)
-                end = ctx.make_node("Where", [op3.output[0], min_const.output[0], new_end_mask.output[0]],
-                                    op_name_scope=node.name).output[0]
+                strides = ctx.make_node("Where", [make_flags("strides_mask", replaced),
+                                                  make_typed_const("strides_masked", new_strides), strides],
+                                        op_name_scope=node.name).output[0]
 
-        # mask strides for shrink
-        shrink_strided_mask = np.array(shrink_strided_mask, dtype=np_dtype)
-        if not np.all(shrink_strided_mask == min_size):
+        # a masked begin or end is the first or the last element in the direction of the stride
+        if begin_masked.any() or end_masked.any():
             if ctx.is_const(strides):
-                strides = ctx.make_const(
-                    utils.make_name("strides_masked"),
-                    np.maximum(ctx.get_tensor_value(strides, as_list=False), shrink_strided_mask)
-                ).output[0]
+                negative = ctx.get_tensor_value(strides, as_list=False) < 0
+                full_begin = make_typed_const("full_begin", np.where(negative, max_size, 0))
+                full_end = make_typed_const("full_end", np.where(negative, min_size, max_size))
             else:
-                shrink_strided_mask_const = ctx.make_const(
-                    utils.make_name("strides_mask"),
-                    np.array(shrink_strided_mask, dtype=np_dtype)
-                )
-                strides_output = utils.make_name("{}__strides".format(node.name))
-                math.make_min_or_max_op(
-                    ctx, "Max",
-                    [strides, shrink_strided_mask_const.output[0]],
-                    [strides_output]
-                )
-                strides = strides_output
+                zero = make_typed_const("zero_const", [0])
+                negative = ctx.make_node("Less", [strides, zero], op_name_scope=node.name).output[0]
+                max_const = make_typed_const("max_const", max_size)
+                full_begin = ctx.make_node("Where", [negative, max_const, zero], op_name_scope=node.name).output[0]
+                full_end = ctx.make_node("Where", [negative, make_typed_const("min_const", min_size), max_const],
+                                         op_name_scope=node.name).output[0]
+
+            def mask_value(name, masked, full):
+                if not masked.any():
+                    return name
+                if ctx.is_const(name) and ctx.is_const(full):
+                    val = np.where(masked, ctx.get_tensor_value(full, as_list=False),
+                                   ctx.get_tensor_value(name, as_list=False))
+                    return make_typed_const("masked", val)
+                return ctx.make_node("Where", [make_flags("mask", masked), full, name],
+                                     op_name_scope=node.name).output[0]
+
+            begin = mask_value(begin, begin_masked, full_begin)
+            end = mask_value(end, end_masked, full_end)
+
         # create axes input
         axes_const = ctx.make_const(
             utils.make_name("slice_axes"),
-- 
2.43.0


From e9db29c18f110ffd355922e608cef09d9d16e098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:32 +0000
Subject: [PATCH 002/114] fix: FloorDiv and FloorMod of integers rounded
 towards zero

---
 tf2onnx/onnx_opset/math.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/tf2onnx/onnx_opset/math.py b/tf2onnx/onnx_opset/math.py
index 9c49dad..1f2ca53 100644
--- a/tf2onnx/onnx_opset/math.py
+++ b/tf2onnx/onnx_opset/math.py
@@ -20,6 +20,10 @@ logger = logging.getLogger(__name__)
 
 # pylint: disable=unused-argument,missing-docstring
 
+SIGNED_INTEGERS = [onnx_pb.TensorProto.INT8, onnx_pb.TensorProto.INT16,
+                   onnx_pb.TensorProto.INT32, onnx_pb.TensorProto.INT64]
+
+
 @tf_op(["Add", "AddV2", "Div", "Mul", "Sub"])
 class BroadcastOp(common.BroadcastOp):
     pass
@@ -523,6 +527,17 @@ class FloorDiv:
             ctx.copy_dtype(node.output[0], floor_res.output[0])
             ctx.copy_shape(node.output[0], floor_res.output[0])
 
+    @classmethod
+    def version_10(cls, ctx, node, **kwargs):
+        if ctx.get_dtype(node.input[0]) not in SIGNED_INTEGERS:
+            cls.version_6(ctx, node, **kwargs)
+            return
+        # onnx Div truncates towards zero: take the remainder (with the sign of y) away first
+        mod = ctx.make_node("Mod", node.input, op_name_scope=node.name)
+        sub = ctx.make_node("Sub", [node.input[0], mod.output[0]], op_name_scope=node.name)
+        node.type = "Div"
+        ctx.replace_input(node, node.input[0], sub.output[0], 0)
+
 
 @tf_op("FloorMod")
 class FloorMod:
@@ -542,6 +557,14 @@ class FloorMod:
         ctx.make_node(op_type="Sub", inputs=[node.input[0], mul.output[0]],
                       name=node.name, outputs=node.output, shapes=shapes, dtypes=dtypes)
 
+    @classmethod
+    def version_10(cls, ctx, node, **kwargs):
+        if ctx.get_dtype(node.input[0]) in SIGNED_INTEGERS:
+            # onnx Mod gives the remainder the sign of y, like FloorMod
+            node.type = "Mod"
+        else:
+            cls.version_7(ctx, node, **kwargs)
+
 
 @tf_op("Selu")
 class Selu:
-- 
2.43.0


From 9865ec32de369aadd0e186ca6d31ba582fb9cf0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:32 +0000
Subject: [PATCH 003/114] fix: Cumprod refused a negative axis

---
 tf2onnx/onnx_opset/math.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tf2onnx/onnx_opset/math.py b/tf2onnx/onnx_opset/math.py
index 1f2ca53..c6a54ad 100644
--- a/tf2onnx/onnx_opset/math.py
+++ b/tf2onnx/onnx_opset/math.py
@@ -589,6 +589,8 @@ class CumProd:
         is_axis_const = axis_node.is_const()
         if is_axis_const: # we can compute axis value right now
             axis = axis_node.get_tensor_value()
+            if axis < 0:
+                axis += len(ctx.get_shape(node.input[0]))
             axis_node = ctx.make_const(utils.make_name("axis"), np.array([axis], dtype=np.int64))
         else:
             axis_node = ctx.make_node("Cast", inputs=[axis_node.output[0]], attr={"to": onnx_pb.TensorProto.INT64},
-- 
2.43.0


From 5ffdc726a181fb3dc10c607a715f9424469ec7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:32 +0000
Subject: [PATCH 004/114] fix: Atan2 of scalars gave a tensor of rank 1

---
 tf2onnx/onnx_opset/math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/math.py b/tf2onnx/onnx_opset/math.py
index c6a54ad..89e93db 100644
--- a/tf2onnx/onnx_opset/math.py
+++ b/tf2onnx/onnx_opset/math.py
@@ -976,7 +976,7 @@ class Atan2Op:
 
         one_node = ctx.make_const(
             utils.make_name("{}_one".format(node.name)),
-            np.array([1], dtype=np_dtype))
+            np.array(1, dtype=np_dtype))
 
         pib2_node = ctx.make_const(
             utils.make_name("{}_pi".format(node.name)),
-- 
2.43.0


From 9158ae5f9b28f1a12fbec7e08a4e65ae52fc562c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:32 +0000
Subject: [PATCH 005/114] fix: reductions over no axis reduced over all of them
 before opset 13 or 18

---
 tf2onnx/onnx_opset/reduction.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/tf2onnx/onnx_opset/reduction.py b/tf2onnx/onnx_opset/reduction.py
index 7978e97..c1f6cfd 100644
--- a/tf2onnx/onnx_opset/reduction.py
+++ b/tf2onnx/onnx_opset/reduction.py
@@ -31,6 +31,12 @@ class ReduceOpBase:
         axes = axes_node.get_tensor_value()
         if np.isscalar(axes):
             axes = [axes]
+        if len(axes) == 0:
+            # tensorflow reduces over no axis, onnx over all of them
+            node.type = "Identity"
+            ctx.remove_input(node, node.input[1], 1)
+            del node.attr['keep_dims']
+            return
         input_shape = ctx.get_shape(node.input[0])
         if input_shape is None:
             if any([val < 0 for val in axes]) and ctx.opset < 11:
@@ -133,6 +139,13 @@ class AllAny:
         if np.isscalar(reduce_dim):
             reduce_dim = [reduce_dim]
 
+        if len(reduce_dim) == 0:
+            # tensorflow reduces over no axis, onnx over all of them
+            node.type = "Identity"
+            ctx.remove_input(node, node.input[1], 1)
+            del node.attr['keep_dims']
+            return
+
         if ctx.opset < 11:
             inp_rank = ctx.get_rank(node.input[0])
             if inp_rank is not None:
-- 
2.43.0


From 925205d721be7ee926e1a4b7078bdcc6d3f20c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:32 +0000
Subject: [PATCH 006/114] fix: segment reductions of empty segments gave nan or
 infinity

---
 tf2onnx/onnx_opset/reduction.py | 46 +++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 17 deletions(-)

diff --git a/tf2onnx/onnx_opset/reduction.py b/tf2onnx/onnx_opset/reduction.py
index c1f6cfd..d134b71 100644
--- a/tf2onnx/onnx_opset/reduction.py
+++ b/tf2onnx/onnx_opset/reduction.py
@@ -256,13 +256,15 @@ class SegmentSum():
         elif node.type == "SegmentMax":
             onnx_op = "ReduceMax"
             if data_is_float:
-                identity_value = np.array('-inf', dtype=data_np_dtype)
+                identity_value = np.finfo(data_np_dtype).min if num_segments_specified \
+                    else np.array('-inf', dtype=data_np_dtype)
             else:
                 identity_value = np.iinfo(data_np_dtype).min
         elif node.type == "SegmentMin":
             onnx_op = "ReduceMin"
             if data_is_float:
-                identity_value = np.array('inf', dtype=data_np_dtype)
+                identity_value = np.finfo(data_np_dtype).max if num_segments_specified \
+                    else np.array('inf', dtype=data_np_dtype)
             else:
                 identity_value = np.iinfo(data_np_dtype).max
 
@@ -284,7 +286,9 @@ class SegmentSum():
 
         max_cnt = GraphBuilder(ctx).make_reduce_max({"data": seg_cnts_sorted, "axes": [0], "keepdims": True})
 
-        if node.type in ["SegmentMean", "SegmentSqrtN"]:
+        # The result of an empty segment is zero, but max and min with a given number of segments use their identity
+        zero_if_empty = node.type in ["SegmentMax", "SegmentMin"] and not num_segments_specified
+        if node.type in ["SegmentMean", "SegmentSqrtN"] or zero_if_empty:
             zero_tensor = helper.make_tensor("value", onnx_pb.TensorProto.INT64, dims=[1], vals=[0])
             if num_segs_const is not None:
                 zeros = ctx.make_const(utils.make_name("zeros"), np.zeros([num_segs_const], np.int64)).output[0]
@@ -300,11 +304,11 @@ class SegmentSum():
         else:
             scaling_amt = None
 
-        if scaling_amt is not None and num_segments_specified:
-            # If empty segments are possible, we must avoid division by zero
-            const_one_float = ctx.make_const(utils.make_name("const_one_float"), np.array(1, dtype=np.float32))
-            scaling_amt = ctx.make_node("Max", [scaling_amt, const_one_float.output[0]]).output[0]
-
+        if scaling_amt is not None:
+            # Empty segments are possible, we must avoid division by zero
+            not_empty = ctx.make_node("Cast", [seg_cnts], attr={'to': onnx_pb.TensorProto.BOOL}).output[0]
+            const_one = ctx.make_const(utils.make_name("const_one"), np.array(1, dtype=data_np_dtype))
+            scaling_amt = ctx.make_node("Where", [not_empty, scaling_amt, const_one.output[0]]).output[0]
 
         zero_const_int64 = ctx.make_const(utils.make_name("const_zero"), np.array(0, dtype=np.int64)).output[0]
         one_const_int64 = ctx.make_const(utils.make_name("const_one"), np.array(1, dtype=np.int64)).output[0]
@@ -327,7 +331,8 @@ class SegmentSum():
         max_int64 = int(utils.get_max_value(np.int64))
         identity_shape = GraphBuilder(ctx).make_slice(
             {'data': data_shape, 'starts': [1], 'ends': [max_int64], 'axes': [0]})
-        id_tensor = helper.make_tensor("value", ctx.get_dtype(data_inp), dims=[1], vals=[identity_value.tolist()])
+        id_tensor = helper.make_tensor("value", ctx.get_dtype(data_inp), dims=[1],
+                                       vals=[np.array(identity_value).tolist()])
         identity = ctx.make_node("ConstantOfShape", [identity_shape], {'value': id_tensor}).output[0]
         id_unsq = GraphBuilder(ctx).make_unsqueeze({'data': identity, 'axes': [0]})
         data_with_id = ctx.make_node("Concat", [data_inp, id_unsq], attr={'axis': 0}).output[0]
@@ -338,19 +343,26 @@ class SegmentSum():
         else:
             reduction_result = GraphBuilder(ctx)._make_reduce_op(
                 onnx_op, 18, {"data": data_grid, "axes": [1], "keepdims": False}, op_name_scope=node.name)
-        if scaling_amt is not None:
+
+        def align_with_data(per_segment):
             if data_rank is None:
-                # Left pad scale to match data rank
+                # Left pad to match data rank
                 data_slice_rank = ctx.make_node("Shape", [identity_shape]).output[0]
                 one_tensor = helper.make_tensor("value", onnx_pb.TensorProto.INT64, dims=[1], vals=[1])
                 ones_of_shape = ctx.make_node("ConstantOfShape", [data_slice_rank], {'value': one_tensor}).output[0]
                 zero_unsq = ctx.make_const(utils.make_name('const_zero'), np.array([0], np.int64)).output[0]
-                scaling_shape = ctx.make_node("Concat", [zero_unsq, ones_of_shape], attr={'axis': 0}).output[0]
-                scaling_amt = ctx.make_node("Reshape", [scaling_amt, scaling_shape]).output[0]
-            elif data_rank != 1:
-                scaling_amt = GraphBuilder(ctx).make_unsqueeze(
-                    {'data': scaling_amt, 'axes': list(range(1, data_rank))})
-            reduction_result = ctx.make_node("Div", [reduction_result, scaling_amt]).output[0]
+                new_shape = ctx.make_node("Concat", [zero_unsq, ones_of_shape], attr={'axis': 0}).output[0]
+                return ctx.make_node("Reshape", [per_segment, new_shape]).output[0]
+            if data_rank != 1:
+                return GraphBuilder(ctx).make_unsqueeze({'data': per_segment, 'axes': list(range(1, data_rank))})
+            return per_segment
+
+        if scaling_amt is not None:
+            reduction_result = ctx.make_node("Div", [reduction_result, align_with_data(scaling_amt)]).output[0]
+        if zero_if_empty:
+            has_data = align_with_data(ctx.make_node("Cast", [seg_cnts], attr={'to': onnx_pb.TensorProto.BOOL}).output[0])
+            zero_const = ctx.make_const(utils.make_name("const_zero"), np.array(0, dtype=data_np_dtype)).output[0]
+            reduction_result = ctx.make_node("Where", [has_data, reduction_result, zero_const]).output[0]
 
         ctx.replace_all_inputs(node.output[0], reduction_result)
         ctx.remove_node(node.name)
-- 
2.43.0


From 48fa4abedc1dcbef97f0bbb833b0d6a426d1ddb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:32 +0000
Subject: [PATCH 007/114] fix: cast optimizer dropped casts to integer before a
 cast to bool

---
 tf2onnx/optimizer/back_to_back_optimizer.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/tf2onnx/optimizer/back_to_back_optimizer.py b/tf2onnx/optimizer/back_to_back_optimizer.py
index 3fa1a0e..3f40454 100644
--- a/tf2onnx/optimizer/back_to_back_optimizer.py
+++ b/tf2onnx/optimizer/back_to_back_optimizer.py
@@ -7,7 +7,7 @@
 
 import numpy as np
 
-from tf2onnx.utils import ONNX_DTYPE_NAMES  # lgtm[py/unsafe-cyclic-import]
+from tf2onnx.utils import ONNX_DTYPE_NAMES, ONNX_TO_NUMPY_DTYPE  # lgtm[py/unsafe-cyclic-import]
 
 from .optimizer_base import GraphOptimizerBase  # lgtm[py/unsafe-cyclic-import]
 
@@ -91,6 +91,11 @@ class BackToBackOptimizer(GraphOptimizerBase):
                 g.remove_node(node.name)
                 return q2
 
+        # a cast to an integer turns nonzero values into zero when the source is a float or a wider integer
+        src_type = np.dtype(ONNX_TO_NUMPY_DTYPE.get(g.get_dtype(node.input[0]), np.float64))
+        dst_type = np.dtype(ONNX_TO_NUMPY_DTYPE.get(type1, np.bool_))
+        keeps_nonzero = src_type.kind in "biu" and src_type.itemsize <= dst_type.itemsize
+
         # otherwise, check consumer cast nodes for a target type
         # that contains more information than current type
         can_reduce = True
@@ -103,9 +108,9 @@ class BackToBackOptimizer(GraphOptimizerBase):
                 pass
             elif 'int' in type1_name:
                 # int* and uint* are mix of high and low information.
-                # for safety, keep the current node, unless type2 is bool,
-                # in which case it's ok to remove node
-                if type1 != type2 and type2_name != 'bool':
+                # for safety, keep the current node, unless type2 is bool and the current
+                # node keeps every nonzero value, in which case it's ok to remove node
+                if type1 != type2 and (type2_name != 'bool' or not keeps_nonzero):
                     can_reduce = False
             elif type1_name == 'bool':
                 # bool is low information, so don't eliminate
-- 
2.43.0


From fd391b4990b4b4eb7593cf372cae794083d80148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:06 +0000
Subject: [PATCH 008/114] fix: InvertPermutation of int32 declared the int64
 indices of TopK as int32

---
 tf2onnx/onnx_opset/math.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/onnx_opset/math.py b/tf2onnx/onnx_opset/math.py
index 89e93db..e787318 100644
--- a/tf2onnx/onnx_opset/math.py
+++ b/tf2onnx/onnx_opset/math.py
@@ -1062,9 +1062,10 @@ class InvertPermutationOp:
 
         ctx.remove_node(node.name)
 
+        # the indices of TopK are int64
         last_node = ctx.make_node(
-            "Identity", inputs=topk_node.output[1:], name=utils.make_name(node.name + '_indices'),
-            shapes=[shape], dtypes=[onnx_dtype])
+            "Cast", inputs=topk_node.output[1:], name=utils.make_name(node.name + '_indices'),
+            attr={"to": onnx_dtype}, shapes=[shape], dtypes=[onnx_dtype])
 
         ctx.replace_all_inputs(node.output[0], last_node.output[0])  # ops=ctx.get_nodes()
 
-- 
2.43.0


From 9a30a3e63d040b8c784c9c45b65efad9f159261c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:22 +0000
Subject: [PATCH 009/114] fix: Slice with run-time begin overflowed for a size
 of -1

---
 tf2onnx/onnx_opset/tensor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index 95b58e6..e57a398 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -350,7 +350,9 @@ class Slice:
 
             size_are_neg_one_flag = ctx.make_node("Equal", [neg_one, size]).output[0]
             size_are_neg_one_flag = ctx.make_node("Cast", [size_are_neg_one_flag], attr={"to": size_dtype}).output[0]
-            value_to_add = ctx.make_node("Mul", [int_max, size_are_neg_one_flag]).output[0]
+            # keep starts + size from overflowing
+            max_size = ctx.make_node("Sub", [int_max, starts]).output[0]
+            value_to_add = ctx.make_node("Mul", [max_size, size_are_neg_one_flag]).output[0]
             size_processed = ctx.make_node("Add", [size, value_to_add]).output[0]
             ends = ctx.make_node("Add", [starts, size_processed]).output[0]
 
-- 
2.43.0


From 88f410f3b13ad0dd440d84b5ed1ba5b47bdd994d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:22 +0000
Subject: [PATCH 010/114] fix: Roll by a vector of one shift

---
 tf2onnx/onnx_opset/tensor.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index e57a398..0954ad9 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -388,9 +388,10 @@ class Roll:
             shifts_casted = node.input[1]
 
         if len(axes) == 1:
-            unsqueeze_node = GraphBuilder(ctx).make_unsqueeze(
-                {'data': shifts_casted, "axes": [0]}, op_name_scope=node.name, return_node=True)
-            shifts_split = [unsqueeze_node.output[0]]
+            if ctx.get_rank(shifts_casted) != 1:
+                shifts_casted = GraphBuilder(ctx).make_unsqueeze(
+                    {'data': shifts_casted, "axes": [0]}, op_name_scope=node.name)
+            shifts_split = [shifts_casted]
         else:
             shifts_split = ctx.make_node("Split", [shifts_casted], attr={'axis': 0, 'num_outputs': len(axes)},
                                          output_count=len(axes), op_name_scope=node.name).output
-- 
2.43.0


From 0a03964d8d348dbf96e33c5e7d5a331347a7e698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:22 +0000
Subject: [PATCH 011/114] fix: GatherV2 with negative batch_dims or axis

---
 tf2onnx/onnx_opset/tensor.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index 0954ad9..ea6952b 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -471,6 +471,13 @@ class GatherV2:
         data_inp, indices_inp, axis_inp = node.input
         utils.make_sure(node.inputs[2].is_const(), "Axis of GatherV2 node must be constant")
         axis = node.inputs[2].get_tensor_value()
+        if batch_dims < 0:
+            utils.make_sure(ctx.get_rank(indices_inp) is not None, "Rank of the indices of GatherV2 is unknown")
+            batch_dims += ctx.get_rank(indices_inp)
+            node.set_attr("batch_dims", batch_dims)
+        if axis < 0:
+            utils.make_sure(ctx.get_rank(data_inp) is not None, "Rank of the input of GatherV2 is unknown")
+            axis += ctx.get_rank(data_inp)
         ctx.remove_input(node, axis_inp, 2)
         if ctx.get_dtype(indices_inp) != TensorProto.INT64:
             indices_inp = ctx.make_node("Cast", [indices_inp], attr={'to': TensorProto.INT64}).output[0]
-- 
2.43.0


From fcd3a7cba53066cdf186a5103cf3c3275b84cfb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:22 +0000
Subject: [PATCH 012/114] fix: ScatterNd did not add up updates of the same
 index

---
 tf2onnx/onnx_opset/tensor.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index ea6952b..679c0b1 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -669,6 +669,13 @@ class ScatterND:
         # reorder inputs to match onnx
         ctx.replace_inputs(node, [node.input[2], node.input[0], node.input[1]])
 
+    @classmethod
+    def version_16(cls, ctx, node, **kwargs):
+        cls.version_11(ctx, node, **kwargs)
+        if ctx.get_dtype(node.output[0]) not in [TensorProto.BOOL, TensorProto.STRING]:
+            # tensorflow adds up the updates of the same index
+            node.set_attr("reduction", 'add')
+
 
 @tf_op("TensorScatterAdd", onnx_op="ScatterND")
 class TensorScatterAdd:
-- 
2.43.0


From 459dbab2575e6f5da74f46e91a595db77e3f2e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:22 +0000
Subject: [PATCH 013/114] fix: SplitV with a -1 split of unknown size

---
 tf2onnx/onnx_opset/tensor.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index 679c0b1..b60ca87 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -764,6 +764,8 @@ class SplitV:
         if -1 in split:
             # negative split = use the remaining size
             shape = ctx.get_shape(node.input[0])
+            utils.make_sure(shape is not None and shape[split_dims] >= 0,
+                            "SplitV op %s requires the size of the axis to compute the size of a -1 split", node.name)
             final_sum = shape[split_dims]
             sums = sum([i for i in split if i >= 0])
             for i, v in enumerate(split):
@@ -781,7 +783,10 @@ class SplitV:
     @classmethod
     def version_13(cls, ctx, node, **kwargs):
         # Split now supports dynamic split lengths
-        if node.inputs[1].is_const():
+        shape = ctx.get_shape(node.input[0])
+        split_dims = node.inputs[2].get_tensor_value()
+        if node.inputs[1].is_const() and (
+                -1 not in node.inputs[1].get_tensor_value() or (shape is not None and shape[split_dims] >= 0)):
             # Call version 1 to deal with -1 cases
             cls.version_1(ctx, node, **kwargs)
             # Convert attr to input
@@ -790,13 +795,24 @@ class SplitV:
             ctx.replace_inputs(node, [node.input[0], split_const.output[0]])
             del node.attr["split"]
         else:
-            # Technically incorrect if any of the splits are -1
             node.type = "Split"
-            split_dims = node.inputs[2].get_tensor_value()
             ctx.remove_input(node, node.input[2], 2)
             node.set_attr("axis", split_dims)
             if ctx.get_dtype(node.input[1]) != TensorProto.INT64:
                 ctx.insert_new_node_on_input(node, "Cast", node.input[1], to=TensorProto.INT64)
+            # a split of -1 takes what the others leave
+            split = node.input[1]
+            neg_one = ctx.make_const(utils.make_name("neg_one"), np.array([-1], np.int64)).output[0]
+            axis_const = ctx.make_const(utils.make_name("axis"), np.array([split_dims], np.int64)).output[0]
+            data_shape = ctx.make_node("Shape", [node.input[0]], op_name_scope=node.name).output[0]
+            size = ctx.make_node("Gather", [data_shape, axis_const], op_name_scope=node.name).output[0]
+            sums = GraphBuilder(ctx).make_reduce_sum({"data": split, "axes": [0], "keepdims": 1})
+            others = ctx.make_node("Sub", [sums, neg_one], op_name_scope=node.name).output[0]
+            remaining = ctx.make_node("Sub", [size, others], op_name_scope=node.name).output[0]
+            is_neg_one = ctx.make_node("Equal", [split, neg_one], op_name_scope=node.name).output[0]
+            new_split = ctx.make_node("Where", [is_neg_one, remaining, split], op_name_scope=node.name,
+                                      shapes=[ctx.get_shape(split)], dtypes=[TensorProto.INT64]).output[0]
+            ctx.replace_input(node, split, new_split, 1)
 
 
 @tf_op("ExpandDims")
-- 
2.43.0


From 5fa620528bbef3ea89d47c4dd435fc46d618e57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:22 +0000
Subject: [PATCH 014/114] fix: OneHot of indices out of range and with values 0
 and 1 swapped

---
 tf2onnx/onnx_opset/tensor.py | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index b60ca87..1cd4ad0 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -1356,15 +1356,19 @@ class OneHot:
         node.set_attr("axis", 0)
         depth = node.inputs[1].get_tensor_value()
         on_val = node.inputs[2].get_tensor_value(as_list=False)
-        on = on_val.tolist()
-        off = node.inputs[3].get_tensor_value()
-        eye = np.eye(depth, dtype=on_val.dtype)
-        if on != 0:
-            eye[eye == 1] = on
-            eye[eye == 0] = off
-        else:
-            eye[eye == 0] = off
-            eye[eye == 1] = on
+        off_val = node.inputs[3].get_tensor_value(as_list=False)
+        # the last row is for indices out of range
+        eye = np.where(np.eye(depth + 1, depth, dtype=bool), on_val, off_val).astype(on_val.dtype)
+        if ctx.opset >= 9 and ctx.get_dtype(indices_name) in [TensorProto.INT32, TensorProto.INT64]:
+            np_dtype = utils.map_onnx_to_numpy_type(ctx.get_dtype(indices_name))
+            depth_const = ctx.make_const(utils.make_name("depth"), np.array(depth, np_dtype)).output[0]
+            zero_const = ctx.make_const(utils.make_name("zero"), np.array(0, np_dtype)).output[0]
+            negative = ctx.make_node("Less", [indices_name, zero_const], op_name_scope=node.name).output[0]
+            in_range = ctx.make_node("Less", [indices_name, depth_const], op_name_scope=node.name).output[0]
+            indices_name = ctx.make_node("Where", [in_range, indices_name, depth_const],
+                                         op_name_scope=node.name).output[0]
+            indices_name = ctx.make_node("Where", [negative, depth_const, indices_name],
+                                         op_name_scope=node.name).output[0]
 
         const_name = utils.make_name(node.name)
         ctx.make_const(const_name, eye)
@@ -1404,6 +1408,18 @@ class OneHot:
 
         indices = node.input[0]
         indices_rank = ctx.get_rank(indices)
+        indices_dtype = ctx.get_dtype(indices)
+
+        if indices_dtype in [onnx_pb.TensorProto.INT32, onnx_pb.TensorProto.INT64]:
+            # onnx counts negative indices from the end, tensorflow takes them as out of range
+            out_of_range = node.input[1]
+            if ctx.get_dtype(out_of_range) != indices_dtype:
+                out_of_range = ctx.make_node("Cast", [out_of_range], attr={"to": indices_dtype}).output[0]
+            zero_const = ctx.make_const(utils.make_name("zero"),
+                                        np.array(0, utils.map_onnx_to_numpy_type(indices_dtype))).output[0]
+            negative = ctx.make_node("Less", [indices, zero_const], op_name_scope=node.name).output[0]
+            indices = ctx.make_node("Where", [negative, out_of_range, indices], op_name_scope=node.name,
+                                    shapes=[ctx.get_shape(indices)], dtypes=[indices_dtype]).output[0]
 
         # Add a special support for 0-rank indices, to do so we have to expand the dimension to 1
         # before the one hot encoding and remove it after.
-- 
2.43.0


From 88f1cc6afd461105c35519eae5e76bbd3392d923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:44 +0000
Subject: [PATCH 015/114] fix: reshape optimizer lost a Squeeze behind a graph
 output

---
 tf2onnx/optimizer/reshape_optimizer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tf2onnx/optimizer/reshape_optimizer.py b/tf2onnx/optimizer/reshape_optimizer.py
index 3e5974b..12162eb 100644
--- a/tf2onnx/optimizer/reshape_optimizer.py
+++ b/tf2onnx/optimizer/reshape_optimizer.py
@@ -93,6 +93,9 @@ class ReshapeOptimizer(GraphOptimizerBase):
             new_shape = [get_reshape_dim(v, i, shift) for i, v in enumerate(symbolic_shape)]
         if new_shape.count(-1) > 1:
             return False
+        if shift > 0 and node.output[0] in graph.outputs:
+            # A squeeze of the reshaped tensor can't take over the name of the graph output
+            return False
 
         new_reshape_shape = None
         if shift > 0:
-- 
2.43.0


From bc92d9741e9845f6eba8e5b54ddf012a3ac16193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:44 +0000
Subject: [PATCH 016/114] fix: order of the nodes depended on their addresses
 in memory

---
 tf2onnx/graph.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/tf2onnx/graph.py b/tf2onnx/graph.py
index 241a82e..9d87e1c 100644
--- a/tf2onnx/graph.py
+++ b/tf2onnx/graph.py
@@ -1519,16 +1519,16 @@ class Graph(object):
             input_checker: customized input check function: bool func(node)
 
         Return:
-            a set of nodes
+            a dict whose keys are the nodes, in an order that does not depend on their hashes
         """
-        res_set = set()
+        res_set = {}
         if not dest_node or (input_checker and input_checker(dest_node) is False):
             return res_set
 
-        processing_set = set([dest_node])
+        processing_set = {dest_node: None}
         while processing_set:
-            top_node = processing_set.pop()
-            res_set.add(top_node)
+            top_node, _ = processing_set.popitem()
+            res_set[top_node] = None
             all_inputs = top_node.input + list(top_node.get_implicit_inputs())
             for input_id in all_inputs:
                 # we don't care about nested graph here, just handle current graph cropping.
@@ -1541,7 +1541,7 @@ class Graph(object):
                 if node not in res_set:
                     if input_checker and input_checker(node) is False:
                         continue
-                    processing_set.add(node)
+                    processing_set[node] = None
         return res_set
 
     def extract_sub_graph_nodes(self, outputs_name, input_checker=None, remove_unused_inputs=True):
@@ -1554,7 +1554,7 @@ class Graph(object):
         Return:
             a list of nodes
         """
-        res_set = set()
+        res_set = {}
 
         outputs_to_keep = list(outputs_name)
         if not remove_unused_inputs:
@@ -1564,7 +1564,7 @@ class Graph(object):
 
         for output in outputs_to_keep:
             node = self.get_node_by_output(output, search_in_parent_graphs=False)
-            res_set = res_set.union(self._extract_sub_graph_nodes(node, input_checker))
+            res_set.update(self._extract_sub_graph_nodes(node, input_checker))
 
         return list(res_set)
 
-- 
2.43.0


From 95ee30ba71c8264a6c6705162a45566a86a2d3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:22 +0000
Subject: [PATCH 017/114] fix: BiasAdd of channels first data with a run-time
 bias

---
 tf2onnx/onnx_opset/nn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/nn.py b/tf2onnx/onnx_opset/nn.py
index e2df904..d3d2c5d 100644
--- a/tf2onnx/onnx_opset/nn.py
+++ b/tf2onnx/onnx_opset/nn.py
@@ -808,7 +808,7 @@ class BiasAdd:
             # so it needs being reshaped into 3-dim tensor before add
             shape0 = ctx.get_shape(node.input[0])
             shape1 = ctx.get_shape(node.input[1])
-            if node.inputs[1].type == 'Const' and len(shape1) == 1:
+            if len(shape1) == 1:
                 new_broadcast_shape = [shape1[0]] + [1] * (len(shape0) - 2)
                 shape_name = utils.make_name(node.name)
                 ctx.make_const(shape_name, np.array(new_broadcast_shape, dtype=np.int64))
-- 
2.43.0


From de4598a28675bf1e218955e42f7cd569d22bd82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:22 +0000
Subject: [PATCH 018/114] fix: transposed convolution with a given output shape
 padded the wrong side

---
 tf2onnx/onnx_opset/nn.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/nn.py b/tf2onnx/onnx_opset/nn.py
index d3d2c5d..e29f976 100644
--- a/tf2onnx/onnx_opset/nn.py
+++ b/tf2onnx/onnx_opset/nn.py
@@ -472,6 +472,7 @@ class ConvTranspose:
                             "output dims cannot be smaller than input dims.")
             if -1 in input_dims:
                 node.set_attr("output_shape", new_output_shape)
+                node.set_attr("auto_pad", "SAME_UPPER")
             else:
                 if "strides" in node.attr:
                     strides = parse_dims_attr(node, node.get_attr("strides").ints, spatial)
@@ -490,7 +491,8 @@ class ConvTranspose:
                                         - new_output_shape[i])
                     start_i = i
                     end_i = i + spatial
-                    pads[start_i] = int(total_padding[i] / 2)
+                    # An output that is larger than needed is extended at its end only
+                    pads[start_i] = max(total_padding[i], 0) // 2
                     pads[end_i] = total_padding[i] - pads[start_i]
                 node.set_attr("pads", pads)
                 node.set_attr("auto_pad", "NOTSET")
-- 
2.43.0


From d867b257c37c0da678f2215644c3784e3238d63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:22 +0000
Subject: [PATCH 019/114] fix: dilated convolution with SAME padding and
 unknown input size

---
 tf2onnx/onnx_opset/nn.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tf2onnx/onnx_opset/nn.py b/tf2onnx/onnx_opset/nn.py
index e29f976..6a2cbd8 100644
--- a/tf2onnx/onnx_opset/nn.py
+++ b/tf2onnx/onnx_opset/nn.py
@@ -233,6 +233,11 @@ def add_padding(ctx, node, kernel_shape, strides, dilations=None, spatial=2):
             input_shape = make_shape_channels_first(input_shape)
             output_shape = make_shape_channels_first(output_shape)
 
+        # With a stride of 1 the padding doesn't depend on the size of the input. The runtime may not support
+        # auto_pad together with dilations.
+        if all(strides[i] == 1 for i in range(spatial)) and any(d != 1 for d in dilations):
+            input_shape = output_shape = [1] * (spatial + 2)
+
         # Check for unknown input/output dimensions. Fall back to auto padding if so.
         if any(input_shape[i + 2] == -1 or output_shape[i + 2] == -1 for i in range(spatial)):
             logger.debug(
-- 
2.43.0


From 56dfc1f575a54b292a0c97a3366801f6b95f7f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:41 +0000
Subject: [PATCH 020/114] fix: ResizeBicubic without half pixel centers used
 the wrong kernel

---
 tf2onnx/onnx_opset/nn.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/onnx_opset/nn.py b/tf2onnx/onnx_opset/nn.py
index 6a2cbd8..330c7cc 100644
--- a/tf2onnx/onnx_opset/nn.py
+++ b/tf2onnx/onnx_opset/nn.py
@@ -1399,8 +1399,9 @@ class Resize:
             mode = "linear"
         elif node.type == "ResizeBicubic":
             mode = "cubic"
-            cubic_coeff_a = -0.5
-            exclude_outside = True
+            # Only with half_pixel_centers tensorflow uses the Keys kernel and leaves out samples outside the image
+            exclude_outside = bool(node.get_attr_value("half_pixel_centers"))
+            cubic_coeff_a = -0.5 if exclude_outside else -0.75
         else:
             mode = "nearest"
         roi = ctx.make_const(utils.make_name("roi"), np.array([]).astype(np.float32))
-- 
2.43.0


From 05dbd680989b620751e5a25493641dd252e15064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:41 +0000
Subject: [PATCH 021/114] fix: AdjustSaturation permuted the channels the wrong
 way

---
 tf2onnx/onnx_opset/nn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/nn.py b/tf2onnx/onnx_opset/nn.py
index 330c7cc..675f1dd 100644
--- a/tf2onnx/onnx_opset/nn.py
+++ b/tf2onnx/onnx_opset/nn.py
@@ -1573,7 +1573,7 @@ class AdjustSaturation:
         new_mid = ctx.make_node("Add", [new_min, new_delta2]).output[0]
         new_ordered = ctx.make_node("Concat", [max_c, new_mid, new_min], attr={'axis': -1}).output[0]
         # Now put it back in order
-        result = ctx.make_node("GatherElements", [new_ordered, indices], attr={'axis': -1}).output[0]
+        result = ctx.make_node("ScatterElements", [new_ordered, indices, new_ordered], attr={'axis': -1}).output[0]
         ctx.replace_all_inputs(node.output[0], result)
         ctx.remove_node(node.name)
 
-- 
2.43.0


From 6758ac149e9e31ce3aa6972c7275659af1cc15b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:41 +0000
Subject: [PATCH 022/114] fix: CropAndResize with method nearest rounded halves
 down

---
 tf2onnx/onnx_opset/nn.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tf2onnx/onnx_opset/nn.py b/tf2onnx/onnx_opset/nn.py
index 675f1dd..8dd1b1d 100644
--- a/tf2onnx/onnx_opset/nn.py
+++ b/tf2onnx/onnx_opset/nn.py
@@ -1333,6 +1333,7 @@ class CropAndResize:
         resized_x = g.make_node("Resize", [transposed_x.output[0], final_roi.output[0], const_empty_float.output[0],
                                            final_crop_size.output[0]],
                                 attr={"mode": mode, "extrapolation_value": extrapolation_value,
+                                      "nearest_mode": "round_prefer_ceil",
                                       "coordinate_transformation_mode": "tf_crop_and_resize"})
         recovered_x = g.make_node("Transpose", [resized_x.output[0]], attr={'perm': constants.NCHW_TO_NHWC})
         squeeze_x = GraphBuilder(g).make_squeeze({'data': recovered_x.output[0], 'axes': [0]}, return_node=True)
-- 
2.43.0


From 1ddafcb4de0f9688cca18ffc44d7481e26b12251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:01 +0000
Subject: [PATCH 023/114] fix: MatMul ignored the transposition of an input of
 unknown rank

---
 tf2onnx/onnx_opset/math.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tf2onnx/onnx_opset/math.py b/tf2onnx/onnx_opset/math.py
index e787318..9ed365e 100644
--- a/tf2onnx/onnx_opset/math.py
+++ b/tf2onnx/onnx_opset/math.py
@@ -375,6 +375,7 @@ class MatMul:
     def version_1(cls, ctx, node, **kwargs):
         # tensorflow allows transpose and conjugated. If found, insert the required transpose.
         # We could use Gemm as well but tensorflow does not pass bias in matmul.
+        matrix_only = node.type == "MatMul"
         if node.type != "MatMulInteger": node.type = "MatMul"
 
         attrs = ["transpose_a", "transpose_b", "adjoint_a", "adjoint_b", "adj_x", "adj_y"]
@@ -393,6 +394,9 @@ class MatMul:
 
         if transpose_a != 0:
             shape = ctx.get_shape(node.input[0])
+            if shape is None and matrix_only:
+                shape = [-1, -1]
+            utils.make_sure(shape is not None, "%s with a transposed input of unknown rank is not supported", node.name)
             if shape:
                 perm = list(range(0, len(shape)))
                 tmp = perm[-1]
@@ -402,6 +406,9 @@ class MatMul:
 
         if transpose_b != 0:
             shape = ctx.get_shape(node.input[1])
+            if shape is None and matrix_only:
+                shape = [-1, -1]
+            utils.make_sure(shape is not None, "%s with a transposed input of unknown rank is not supported", node.name)
             if shape:
                 perm = list(range(0, len(shape)))
                 tmp = perm[-1]
-- 
2.43.0


From beb1500f2d2232204c50b081baa902cc7f2bfef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:01 +0000
Subject: [PATCH 024/114] fix: einsum decomposition used the ReduceSum of opset
 13 at opset 12

---
 tf2onnx/optimizer/einsum_optimizer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tf2onnx/optimizer/einsum_optimizer.py b/tf2onnx/optimizer/einsum_optimizer.py
index 0b2eab4..052fd48 100644
--- a/tf2onnx/optimizer/einsum_optimizer.py
+++ b/tf2onnx/optimizer/einsum_optimizer.py
@@ -620,6 +620,10 @@ class EinsumSubOp:
         inp = self.inputs[0]
         name = self._get_data(names, inp)
         axes = self.kwargs['axes']
+        if opset < 13:
+            yield helper.make_node(
+                'ReduceSum', [name], [self._onnx_name()], axes=list(axes), keepdims=1)
+            return
         name_axes = self._onnx_name() + '_axes'
         yield numpy_helper.from_array(
             np.array(axes, dtype=np.int64), name=name_axes)
-- 
2.43.0


From e9e83eb3496a093d670903933e2de48a7446acb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:35 +0000
Subject: [PATCH 025/114] fix: gemm rewriter failed for a bias of rank 3

---
 tf2onnx/rewriter/gemm_rewriter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tf2onnx/rewriter/gemm_rewriter.py b/tf2onnx/rewriter/gemm_rewriter.py
index d06c7e0..2534569 100644
--- a/tf2onnx/rewriter/gemm_rewriter.py
+++ b/tf2onnx/rewriter/gemm_rewriter.py
@@ -91,6 +91,8 @@ def rewrite_gemm(g, ops):
                 if a_mul_b_shape is None: continue
                 if -1 in c_shape + a_mul_b_shape: continue
                 if g.get_rank(a_edge_name) != 2 or g.get_rank(b_edge_name) != 2: continue
+                # Gemm broadcasts C to the shape of the product but not the other way round
+                if len(c_shape) > 2: continue
                 compatible = True
                 for i in range(1, len(c_shape) + 1):
                     if c_shape[-i] not in [1, a_mul_b_shape[-i]]:
-- 
2.43.0


From 9edcc57956770e476c5776df5865f7ef8617ea80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:23 +0000
Subject: [PATCH 026/114] fix: gemm rewriter built an invalid Gemm from a scale
 of rank 2 or 3

---
 tf2onnx/rewriter/gemm_rewriter.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/tf2onnx/rewriter/gemm_rewriter.py b/tf2onnx/rewriter/gemm_rewriter.py
index 2534569..1153bed 100644
--- a/tf2onnx/rewriter/gemm_rewriter.py
+++ b/tf2onnx/rewriter/gemm_rewriter.py
@@ -116,12 +116,11 @@ def get_gemm_attr(match):
     for arg in ["alpha", "beta"]:
         arg_op = match.get_op(arg)
         if arg_op is not None:
-            match_args = arg_op.get_tensor_value()
-            if isinstance(match_args, list):
-                if len(match_args) != 1:
-                    return attr, False
-                match_args = match_args[0]
-            attr[arg] = match_args
+            match_args = arg_op.get_tensor_value(as_list=False)
+            # a scale of a higher rank would turn the result into a tensor of that rank
+            if match_args.size != 1 or match_args.ndim > 2:
+                return attr, False
+            attr[arg] = match_args.item()
     for arg in ["matmul"]:
         arg_op = match.get_op(arg)
         if arg_op is not None:
-- 
2.43.0


From 829975e9801f94d414e1758e983bb7764443b43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:37 +0000
Subject: [PATCH 027/114] fix: BatchMatMul of integers with adj_x or adj_y was
 refused

---
 tf2onnx/onnx_opset/math.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/onnx_opset/math.py b/tf2onnx/onnx_opset/math.py
index 9ed365e..8cf44bd 100644
--- a/tf2onnx/onnx_opset/math.py
+++ b/tf2onnx/onnx_opset/math.py
@@ -386,8 +386,9 @@ class MatMul:
         if any(attrs_val[2:]):
             # conjugation operation on complex data not supported in onnx for now
             # so if it's complex than raise exception
-            if dtype not in [onnx_pb.TensorProto.FLOAT, onnx_pb.TensorProto.FLOAT16, onnx_pb.TensorProto.DOUBLE]:
-                raise ValueError("dtype " + dtype + " is not supported in onnx matmul for now")
+            if dtype in [onnx_pb.TensorProto.COMPLEX64, onnx_pb.TensorProto.COMPLEX128]:
+                raise ValueError("dtype " + utils.map_onnx_to_numpy_type(dtype).__name__ +
+                                 " is not supported in onnx matmul for now")
 
         transpose_a = (attrs_val[0] + attrs_val[2] + attrs_val[4]) % 2
         transpose_b = (attrs_val[1] + attrs_val[3] + attrs_val[5]) % 2
-- 
2.43.0


From 7b5e69e5b4a5ea56c1e9dacfc002a9c725f74d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:20 +0000
Subject: [PATCH 028/114] fix: merging reshapes ignored zeros that copy a dim
 of the intermediate tensor

---
 tf2onnx/optimizer/back_to_back_optimizer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tf2onnx/optimizer/back_to_back_optimizer.py b/tf2onnx/optimizer/back_to_back_optimizer.py
index 3f40454..9c3b393 100644
--- a/tf2onnx/optimizer/back_to_back_optimizer.py
+++ b/tf2onnx/optimizer/back_to_back_optimizer.py
@@ -272,6 +272,10 @@ class BackToBackOptimizer(GraphOptimizerBase):
         if node2.type != 'Reshape':
             return []
 
+        # a 0 in the shape copies a dim of the intermediate tensor
+        if not node2.inputs[1].is_const() or 0 in node2.inputs[1].get_tensor_value(as_list=False):
+            return []
+
         g.replace_inputs(node2, [node.input[0], node2.input[1]])
         g.remove_node(node.name)
         return []
-- 
2.43.0


From bf2928712df9a81486f39731666cc2f377b2a69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:20 +0000
Subject: [PATCH 029/114] fix: folding a constant Reshape ignored allowzero

---
 tf2onnx/optimizer/const_fold_optimizer.py | 3 ++-
 tf2onnx/optimizer/transpose_optimizer.py  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/optimizer/const_fold_optimizer.py b/tf2onnx/optimizer/const_fold_optimizer.py
index 95ce07b..4c4327c 100644
--- a/tf2onnx/optimizer/const_fold_optimizer.py
+++ b/tf2onnx/optimizer/const_fold_optimizer.py
@@ -122,8 +122,9 @@ class ConstFoldOptimizer(GraphOptimizerBase):
         const_val_data = node.inputs[0].get_tensor_value(as_list=False)
         const_val_shape = node.inputs[1].get_tensor_value(as_list=True)
         data_shape = const_val_data.shape
+        allowzero = node.get_attr_value('allowzero', 0)
         for i, dim in enumerate(const_val_shape):
-            if dim == 0:
+            if dim == 0 and not allowzero:
                 # In ORT a dim of 0 means the shape stays the same.
                 const_val_shape[i] = data_shape[i]
         const_val_after_trans = const_val_data.reshape(const_val_shape)
diff --git a/tf2onnx/optimizer/transpose_optimizer.py b/tf2onnx/optimizer/transpose_optimizer.py
index f2c91c7..a9694dd 100644
--- a/tf2onnx/optimizer/transpose_optimizer.py
+++ b/tf2onnx/optimizer/transpose_optimizer.py
@@ -71,8 +71,9 @@ class TransposeOptimizer(GraphOptimizerBase):
         for reshape_op in constable_reshape_ops:
             target_t = reshape_op.inputs[0].get_tensor_value(as_list=False)
             target_shape = reshape_op.inputs[1].get_tensor_value(as_list=True)
+            allowzero = reshape_op.get_attr_value("allowzero", 0)
             for i, dim in enumerate(target_shape):
-                if dim == 0:
+                if dim == 0 and not allowzero:
                     # In ORT a dim of 0 means the shape stays the same.
                     target_shape[i] = target_t.shape[i]
             new_data = np.reshape(target_t, target_shape)
-- 
2.43.0


From 5785c9e3e7a8e5d82b5fd40982ba81a916e21247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:20 +0000
Subject: [PATCH 030/114] fix: Split nodes with different numbers of outputs
 were merged

---
 tf2onnx/optimizer/merge_duplicated_nodes_optimizer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/optimizer/merge_duplicated_nodes_optimizer.py b/tf2onnx/optimizer/merge_duplicated_nodes_optimizer.py
index 8d876ce..887e6c5 100644
--- a/tf2onnx/optimizer/merge_duplicated_nodes_optimizer.py
+++ b/tf2onnx/optimizer/merge_duplicated_nodes_optimizer.py
@@ -54,10 +54,12 @@ class MergeDuplicatedNodesOptimizer(GraphOptimizerBase):
             if node.is_graph_input_default_const():
                 continue
             tensor_data_hash = None
+            # The number of outputs determines what Split computes
+            split_count = len(node.output) if node.type == "Split" else None
             if node.is_const():
                 # Many constants have the same size so this is helpful
                 tensor_data_hash = hash(node.attr['value'].t.raw_data)
-            res[(node.type, tuple(node.input), tensor_data_hash)].append(node)
+            res[(node.type, node.domain, tuple(node.input), tensor_data_hash, split_count)].append(node)
         return res
 
     def _del_nodes_if_duplicated(self, nodes_group, graph):
-- 
2.43.0


From b156f0afb8482adc9b64325e236e21c867e7c4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:49 +0000
Subject: [PATCH 031/114] fix: random nodes with equal attributes were merged
 into one

---
 tf2onnx/optimizer/merge_duplicated_nodes_optimizer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tf2onnx/optimizer/merge_duplicated_nodes_optimizer.py b/tf2onnx/optimizer/merge_duplicated_nodes_optimizer.py
index 887e6c5..2f89b45 100644
--- a/tf2onnx/optimizer/merge_duplicated_nodes_optimizer.py
+++ b/tf2onnx/optimizer/merge_duplicated_nodes_optimizer.py
@@ -113,6 +113,10 @@ class MergeDuplicatedNodesOptimizer(GraphOptimizerBase):
         # identity node will be handled by identity optimizer so skip it
         if node.type in ["Identity"]:
             return True
+        # each of these draws its own numbers
+        if node.type in ["RandomUniform", "RandomNormal", "RandomUniformLike", "RandomNormalLike", "Multinomial",
+                         "Bernoulli"]:
+            return True
         if node.is_graph_input():
             return True
         return False
-- 
2.43.0


From e137bb6f7d6f87c1e27e2d4b9f0e6eecd235bd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:21 +0000
Subject: [PATCH 032/114] fix: values read in a subgraph were unknown to the
 graph it was attached to

---
 tf2onnx/graph.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tf2onnx/graph.py b/tf2onnx/graph.py
index 9d87e1c..f7b8016 100644
--- a/tf2onnx/graph.py
+++ b/tf2onnx/graph.py
@@ -363,6 +363,7 @@ class Node(object):
 
         self.graph.contained_graphs[self.name].update({attr_name: graph})
         graph.parent_graph = self.graph
+        graph.register_inputs_in_parent_graphs()
 
     def update_proto(self, external_tensor_storage=None):
         """Update protobuf from internal structure."""
@@ -1415,6 +1416,13 @@ class Graph(object):
             self.parent_graph._input_to_graph[input_name][id(self)] = self
             self.parent_graph._register_input_name(input_name, node, only_graph=True)
 
+    def register_inputs_in_parent_graphs(self):
+        """Make the values read in this graph and its subgraphs known to the graphs it has been attached to."""
+        names = {name for node in self.get_nodes() for name in node.input}
+        names.update(self._input_to_graph)
+        for name in names:
+            self._register_input_name(name, None, only_graph=True)
+
     def _unregister_input_name(self, input_name, node, only_graph=False):
         "Unregister node taking a specific input."
         node_name = node.name
-- 
2.43.0


From e415e289066a73a5542e1fe0fcdc51ce2d92ba93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:41 +0000
Subject: [PATCH 033/114] fix: transpose optimizer ignored start and end of
 Shape

---
 tf2onnx/optimizer/transpose_optimizer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tf2onnx/optimizer/transpose_optimizer.py b/tf2onnx/optimizer/transpose_optimizer.py
index a9694dd..1f9cc3a 100644
--- a/tf2onnx/optimizer/transpose_optimizer.py
+++ b/tf2onnx/optimizer/transpose_optimizer.py
@@ -1005,6 +1005,9 @@ class TransposeOptimizer(GraphOptimizerBase):
 
     def _shape_handler(self, trans, node):
         # input > trans > shape  can be changed into  input > shape > gather
+        if "start" in node.attr or "end" in node.attr:
+            # Shape of a slice of the dims (since opset 15)
+            return False
         if not self._nodes_has_single_consumer_node([trans]):
             return False
 
-- 
2.43.0


From 677d3e815afa0639ec636694cc0fc1b72e0b8c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:41 +0000
Subject: [PATCH 034/114] fix: transpose optimizer ignored a negative axis of
 Softmax before opset 13

---
 tf2onnx/optimizer/transpose_optimizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tf2onnx/optimizer/transpose_optimizer.py b/tf2onnx/optimizer/transpose_optimizer.py
index 1f9cc3a..3ce9727 100644
--- a/tf2onnx/optimizer/transpose_optimizer.py
+++ b/tf2onnx/optimizer/transpose_optimizer.py
@@ -865,6 +865,8 @@ class TransposeOptimizer(GraphOptimizerBase):
         # For older opsets, the "axis" attribute determines the coercion point for coercing the input tensor to 2D.
         # We can safely switch transpose and node if the permutation does not make any axes cross that boundary.
         coercion_axis = node.get_attr_value("axis", 1)
+        if coercion_axis < 0:
+            coercion_axis += trans_rank
         for from_axis, to_axis in enumerate(perm):
             if (from_axis < coercion_axis <= to_axis) or (from_axis >= coercion_axis > to_axis):
                 return False
-- 
2.43.0


From 80a935b9d40385be4b6cf8741ab7053708315232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:41 +0000
Subject: [PATCH 035/114] fix: transpose optimizer took any constant of the
 right size for the bias of a Conv

---
 tf2onnx/optimizer/transpose_optimizer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/optimizer/transpose_optimizer.py b/tf2onnx/optimizer/transpose_optimizer.py
index 3ce9727..22eafbb 100644
--- a/tf2onnx/optimizer/transpose_optimizer.py
+++ b/tf2onnx/optimizer/transpose_optimizer.py
@@ -495,9 +495,11 @@ class TransposeOptimizer(GraphOptimizerBase):
                     self.logger.debug("Bias is not 1D, can not merge Conv and Add")
                     return self._handle_node_having_branches(trans, node)
 
-                bias_size = max(numpy_val.shape)
+                # the bias of Conv is added along dim 1 of its output, which must be the last dim behind the transpose
+                bias_size = numpy_val.size
                 size_m = t_p.inputs[1].output_shapes[0][0]
-                if bias_size != size_m:
+                if bias_size != size_m or len(numpy_val.shape) > get_transpose_rank(trans) \
+                        or numpy_val.shape[-1:] != (bias_size,) or trans.get_attr_value("perm")[-1] != 1:
                     self.logger.debug("Bias size is not M, can not merge Conv and Add")
                     return self._handle_node_having_branches(trans, node)
 
-- 
2.43.0


From 197f7f380e47a33712f37273464b166f5c18bc81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:33 +0000
Subject: [PATCH 036/114] fix: transpose optimizer left the former shape and
 type on moved transposes

---
 tf2onnx/optimizer/transpose_optimizer.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/optimizer/transpose_optimizer.py b/tf2onnx/optimizer/transpose_optimizer.py
index 22eafbb..a83a258 100644
--- a/tf2onnx/optimizer/transpose_optimizer.py
+++ b/tf2onnx/optimizer/transpose_optimizer.py
@@ -311,9 +311,14 @@ class TransposeOptimizer(GraphOptimizerBase):
             perm_inv = invert_perm(trans.get_attr_value("perm"))
             new_shape = [shape[i] for i in perm_inv]
             self._g.set_shape(node.output[0], new_shape)
-            self._g.set_shape(trans.output[0], shape)
+        self._update_moved_transpose(trans, node, shape)
         return True
 
+    # trans yields what used to be the output of node, also when its shape is unknown
+    def _update_moved_transpose(self, trans, node, shape):
+        self._g.set_shape(trans.output[0], shape)
+        self._g.copy_dtype(node.output[0], trans.output[0])
+
     # if return value is True, then it means Transpose is handled as designed
     # otherwise, it means that we skip handling since it is not in our support set
     def _handle_nhwc_tranpose(self, trans):
@@ -557,6 +562,10 @@ class TransposeOptimizer(GraphOptimizerBase):
             self._g.replace_input(node, node.input[0], trans.input[0], 0)
             self._g.replace_input(node, node.input[1], trans.input[0], 1)
             self._g.replace_input(trans, trans.input[0], node.output[0], 0)
+            shape = self._g.get_shape(node.output[0])
+            if shape:
+                self._g.set_shape(node.output[0], [shape[i] for i in invert_perm(trans.get_attr_value("perm"))])
+            self._update_moved_transpose(trans, node, shape)
             return True
 
         # convert  mul(trans(x), trans(y)) ->  trans(mul(x, y))
@@ -654,6 +663,7 @@ class TransposeOptimizer(GraphOptimizerBase):
         shape = self._g.get_shape(node.output[0])
         if shape:
             self._g.set_shape(node.output[0], [shape[i] for i in untrans_idx])
+        self._update_moved_transpose(trans, node, shape)
 
         # update constants, remove dangling transposes
         for n in inputs:
-- 
2.43.0


From 90c82986d038962485eb1671a7f28667e5f66b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:20 +0000
Subject: [PATCH 037/114] fix: transpose optimizer changed weights and bias
 constants other nodes also use

---
 tf2onnx/optimizer/transpose_optimizer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/optimizer/transpose_optimizer.py b/tf2onnx/optimizer/transpose_optimizer.py
index a83a258..202d8e8 100644
--- a/tf2onnx/optimizer/transpose_optimizer.py
+++ b/tf2onnx/optimizer/transpose_optimizer.py
@@ -509,9 +509,11 @@ class TransposeOptimizer(GraphOptimizerBase):
                     return self._handle_node_having_branches(trans, node)
 
                 target_val = numpy_val.reshape(bias_size)
+                if not self._nodes_has_single_consumer_node([target_node]):
+                    target_node = self._g.copy_const(target_node)
                 target_node.set_tensor_value(target_val)
 
-                conv_inputs = [t_p.input[0], t_p.input[1], node.input[1]]
+                conv_inputs = [t_p.input[0], t_p.input[1], target_node.output[0]]
                 conv_node = self._g.make_node(t_p.type, conv_inputs, attr=t_p.get_onnx_attrs())
                 self._g.replace_input(trans, trans.input[0], utils.port_name(conv_node.name), 0)
                 self._g.replace_all_inputs(node.output[0], trans.output[0])  # ops=self._g.get_nodes()
@@ -597,6 +599,9 @@ class TransposeOptimizer(GraphOptimizerBase):
                 and all(shape == 1 for shape in multiplier.shape[:-1])
             if can_opt:
                 conv = t_p
+                if not self._nodes_has_single_consumer_node([conv.inputs[1]]):
+                    weights = self._g.copy_const(conv.inputs[1])
+                    self._g.replace_input(conv, conv.input[1], weights.output[0], 1)
                 numpy_val = conv.inputs[1].get_tensor_value(as_list=False)
                 transposed_val = np.transpose(numpy_val, (2, 3, 1, 0))
                 mul_val = multiplier
-- 
2.43.0


From 97401c2efc2c723fe86fd534a61fde3036ffbdb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:57 +0000
Subject: [PATCH 038/114] fix: FakeQuant rounded its zero point in another way
 than tensorflow

---
 tf2onnx/onnx_opset/quantize.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/onnx_opset/quantize.py b/tf2onnx/onnx_opset/quantize.py
index b4f5fac..2f0d5f9 100644
--- a/tf2onnx/onnx_opset/quantize.py
+++ b/tf2onnx/onnx_opset/quantize.py
@@ -48,8 +48,10 @@ class FakeQuantWithMinMaxArgs:
             "Unable to convert node FakeQuantWithMinMaxArgs with "
             "num_bits=%r", num_bits)
 
-        scale = (amax - amin) / (2 ** num_bits - 1)
-        min_adj = np.around(amin / scale)
+        # computed like tensorflow does, in float32 and rounding halves away from zero
+        amin, amax = np.float32(amin), np.float32(amax)
+        scale = (amax - amin) / np.float32(2 ** num_bits - 1)
+        min_adj = -np.floor(-amin / scale + np.float32(0.5))
 
         dtype = ctx.get_dtype(node.input[0])
         shape = ctx.get_shape(node.input[0])
-- 
2.43.0


From bb74c8142c0c3e7b29365e0ceef9dc418d3d999f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:57 +0000
Subject: [PATCH 039/114] fix: QuantizeAndDequantize ignored num_bits,
 round_mode and the narrow range

---
 tf2onnx/rewriter/quantization_ops_rewriter.py | 35 ++++++++++++++++---
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/tf2onnx/rewriter/quantization_ops_rewriter.py b/tf2onnx/rewriter/quantization_ops_rewriter.py
index d094746..2eec49c 100644
--- a/tf2onnx/rewriter/quantization_ops_rewriter.py
+++ b/tf2onnx/rewriter/quantization_ops_rewriter.py
@@ -30,12 +30,22 @@ def create_qdq_nodes(g, match_results):
         range_given = qdq_node.get_attr_value("range_given", qdq_node.type != "QuantizeAndDequantizeV2" or \
                                                              qdq_node.type != "QuantizeAndDequantizeV4")
 
-        min_quantized, max_quantized = [-127, 127]
-        if not narrow_range and signed_input:
-            min_quantized = -128
+        utils.make_sure(qdq_node.get_attr_value("round_mode", b"HALF_TO_EVEN") == b"HALF_TO_EVEN",
+                        "%s node %s: only round_mode HALF_TO_EVEN is supported", qdq_node.type, qdq_node.name)
+
+        if qdq_node.type == "QuantizeAndDequantizeV3":
+            num_bits = int(qdq_node.inputs[3].get_tensor_value())
+        else:
+            num_bits = qdq_node.get_attr_value("num_bits", 8)
+        utils.make_sure(2 <= num_bits <= 8, "%s node %s: num_bits=%r is not supported",
+                        qdq_node.type, qdq_node.name, num_bits)
+
+        min_quantized, max_quantized = [-2 ** (num_bits - 1), 2 ** (num_bits - 1) - 1]
+        if narrow_range:
+            min_quantized += 1
 
         if not signed_input:
-            min_quantized, max_quantized = [0, 255]
+            min_quantized, max_quantized = [0, 2 ** num_bits - 1]
 
         # Get axis attribute for per channel implementation.
         axis = qdq_node.get_attr_value('axis', -1)
@@ -114,8 +124,23 @@ def create_qdq_nodes(g, match_results):
             scale = g.make_const(name=utils.make_name("quant_scale"), np_val=cast_scale).output[0]
             zero_point = g.make_const(utils.make_name("zero_point"), zero_point_np).output[0]
 
+        quant_input = qdq_node.input[0]
+        if range_given and (narrow_range and signed_input or num_bits < 8):
+            # QuantizeLinear only saturates at the limits of the 8 bit type
+            bounds = np.array([min_quantized, max_quantized], np.float32).reshape([2] + [1] * cast_scale.ndim) * cast_scale
+            if axis != -1 and cast_scale.ndim == 1:
+                inp_rank = g.get_rank(qdq_node.input[0])
+                utils.make_sure(inp_rank is not None, "Input rank cannot be unknown for qdq op %s", qdq_node.name)
+                bounds = bounds.reshape([2, -1] + [1] * (inp_rank - axis - 1))
+            lower = g.make_const(utils.make_name("lower_bound"), bounds[0]).output[0]
+            upper = g.make_const(utils.make_name("upper_bound"), bounds[1]).output[0]
+            quant_input = g.make_node("Max", [quant_input, lower], shapes=[qdq_node_output_shape],
+                                      dtypes=[qdq_node_output_dtype]).output[0]
+            quant_input = g.make_node("Min", [quant_input, upper], shapes=[qdq_node_output_shape],
+                                      dtypes=[qdq_node_output_dtype]).output[0]
+
         quant_node = g.make_node(op_type="QuantizeLinear",
-                                 inputs=[qdq_node.input[0], scale, zero_point],
+                                 inputs=[quant_input, scale, zero_point],
                                  shapes=[qdq_node_output_shape],
                                  attr=q_attrs,
                                  dtypes=[quantized_dtype],
-- 
2.43.0


From 1780330c8cec82570cd7f41e3275c3d74b2ff8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:57 +0000
Subject: [PATCH 040/114] fix: QuantizeAndDequantize gave invalid models before
 opset 10

---
 tf2onnx/rewriter/quantization_ops_rewriter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tf2onnx/rewriter/quantization_ops_rewriter.py b/tf2onnx/rewriter/quantization_ops_rewriter.py
index 2eec49c..d96a9cb 100644
--- a/tf2onnx/rewriter/quantization_ops_rewriter.py
+++ b/tf2onnx/rewriter/quantization_ops_rewriter.py
@@ -24,6 +24,8 @@ def create_qdq_nodes(g, match_results):
         qdq_node_output_dtype = g.get_dtype(qdq_node.output[0])
         qdq_node_output_shape = g.get_shape(qdq_node.output[0])
 
+        utils.make_sure(g.opset >= 10, "Opset >= 10 is required for quantization")
+
         # Get the attributes of qdq node
         narrow_range = qdq_node.attr['narrow_range'].i
         signed_input = qdq_node.attr['signed_input'].i
-- 
2.43.0


From d13d60296ec6b113aaadfd692131b950256e39d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:57 +0000
Subject: [PATCH 041/114] fix: quantization was moved past scatter nodes that
 add or multiply

---
 tf2onnx/optimizer/q_dq_optimizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tf2onnx/optimizer/q_dq_optimizer.py b/tf2onnx/optimizer/q_dq_optimizer.py
index 7545b40..601a7e1 100644
--- a/tf2onnx/optimizer/q_dq_optimizer.py
+++ b/tf2onnx/optimizer/q_dq_optimizer.py
@@ -144,6 +144,8 @@ def is_tensor_op(g, node):
         # Output depends on data if indices is unchanged
         return ([0], [0])
     if node.type in ["Scatter", "ScatterND", "ScatterElements"]:
+        if node.get_attr_value("reduction", b"none") != b"none":
+            return None
         # Output depends on data and updates if indices is unchanged
         return ([0, 2], [0])
     if node.type == "Concat":
-- 
2.43.0


From 498b0bdca35954a67ee624567adeb295c6767ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:57 +0000
Subject: [PATCH 042/114] fix: q dq optimizer took per channel quantization
 without axis for per tensor

---
 tf2onnx/optimizer/q_dq_optimizer.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/optimizer/q_dq_optimizer.py b/tf2onnx/optimizer/q_dq_optimizer.py
index 601a7e1..62405b1 100644
--- a/tf2onnx/optimizer/q_dq_optimizer.py
+++ b/tf2onnx/optimizer/q_dq_optimizer.py
@@ -33,8 +33,14 @@ class QDQOptimizer(GraphOptimizerBase):
                     self.graph_been_opt = True
         return graph
 
+    @staticmethod
+    def is_per_channel(node, graph):
+        # the axis of a scale of rank 1 is optional
+        scale_shape = graph.get_shape(node.input[1])
+        return 'axis' in node.attr or scale_shape is None or len(scale_shape) > 0
+
     def _optimize_quantize(self, quant_node, graph):
-        if 'axis' in quant_node.attr:
+        if self.is_per_channel(quant_node, graph):
             return False
         node = quant_node.inputs[0]
         if node.type == "DequantizeLinear":
@@ -80,7 +86,7 @@ class QDQOptimizer(GraphOptimizerBase):
         return True
 
     def _optimize_dequantize(self, dequant_node, graph):
-        if 'axis' in dequant_node.attr:
+        if self.is_per_channel(dequant_node, graph):
             return False
         # Push dequantize nodes down
         consumers = graph.find_output_consumers(dequant_node.output[0])
-- 
2.43.0


From 1c0b04ea923138f3057e539d0d16dc9e59a85ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:58 +0000
Subject: [PATCH 043/114] fix: const dequantize optimizer kept the shape from
 before the folded node

---
 tf2onnx/optimizer/const_dequantize_optimizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/optimizer/const_dequantize_optimizer.py b/tf2onnx/optimizer/const_dequantize_optimizer.py
index 5fbfccc..ef61f76 100644
--- a/tf2onnx/optimizer/const_dequantize_optimizer.py
+++ b/tf2onnx/optimizer/const_dequantize_optimizer.py
@@ -47,7 +47,7 @@ class ConstDequantizeOptimizer(GraphOptimizerBase):
             return False
         if len(dequant_node.inputs[1].get_tensor_value(as_list=False).flatten()) != 1:
             # If using per-channel quantization, we must compute the new axis
-            old_axis = dequant_node.get_attr_value("axis")
+            old_axis = dequant_node.get_attr_value("axis", 1)
             input_shape = dequant_node.inputs[0].get_tensor_value(as_list=False).shape
             new_axis = self.compute_new_axis(node, graph, old_axis, input_shape)
             if new_axis is None:
@@ -62,6 +62,7 @@ class ConstDequantizeOptimizer(GraphOptimizerBase):
             dequant_const = graph.copy_const(dequant_const)
             graph.replace_input(dequant_node, dequant_node.input[0], dequant_const.output[0], 0)
         dequant_const.set_tensor_value(const_outputs[0])
+        graph.set_shape(dequant_node.output[0], const_outputs[0].shape)
         return True
 
     @staticmethod
-- 
2.43.0


From 962f334c6ec1111037e5a18b3d0bcb05681d30e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:11 +0000
Subject: [PATCH 044/114] fix: QuantizeAndDequantize of a vector per element
 used one scale

---
 tf2onnx/rewriter/quantization_ops_rewriter.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tf2onnx/rewriter/quantization_ops_rewriter.py b/tf2onnx/rewriter/quantization_ops_rewriter.py
index d96a9cb..8e21d8d 100644
--- a/tf2onnx/rewriter/quantization_ops_rewriter.py
+++ b/tf2onnx/rewriter/quantization_ops_rewriter.py
@@ -74,9 +74,13 @@ def create_qdq_nodes(g, match_results):
                 reduce_attr['axes'] = reduce_axes
 
             reduce_attr['data'] = qdq_node.input[0]
-            max_value = GraphBuilder(g).make_reduce_max(reduce_attr.copy())
-            if signed_input:
-                min_value = GraphBuilder(g).make_reduce_min(reduce_attr.copy())
+            if reduce_attr.get('axes') == []:
+                # every element of a vector is a channel, a reduction without axes would reduce all of them
+                max_value = min_value = qdq_node.input[0]
+            else:
+                max_value = GraphBuilder(g).make_reduce_max(reduce_attr.copy())
+                if signed_input:
+                    min_value = GraphBuilder(g).make_reduce_min(reduce_attr.copy())
 
             scale_from_max_side = g.make_node("Div", [max_value, max_quantized_const]).output[0]
             if signed_input:
-- 
2.43.0


From 88529e8f353e0e75acf14308bfb23d2486a713c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:47 +0000
Subject: [PATCH 045/114] fix: random_uniform rewriter dropped the seed of the
 operator

---
 tf2onnx/rewriter/random_uniform.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tf2onnx/rewriter/random_uniform.py b/tf2onnx/rewriter/random_uniform.py
index 3c68f6e..6e9149a 100644
--- a/tf2onnx/rewriter/random_uniform.py
+++ b/tf2onnx/rewriter/random_uniform.py
@@ -73,6 +73,10 @@ def create_onnx_random_uniform_op(g, tmax, tmin, ru_op, output, to_delete):
     shape_node = ru_op.inputs[0]
     shape_node_output = ru_op.input[0]
     shape = g.get_shape(output.output[0])
+    attr = {"low": tmin, "high": tmax, "dtype": dtype}
+    seed = utils.combine_seeds(ru_op.get_attr_value("seed", 0), ru_op.get_attr_value("seed2", 0))
+    if seed is not None:
+        attr["seed"] = seed
     if shape_node.is_const():
         # if the tensorflow input (aka the shape) is const we can use the RandomUniform op
         needs_squeeze = False
@@ -80,7 +84,7 @@ def create_onnx_random_uniform_op(g, tmax, tmin, ru_op, output, to_delete):
             shape = [1]
             needs_squeeze = True
         new_node = g.make_node("RandomUniform", [], name=op_name,
-                               attr={"low": tmin, "high": tmax, "dtype": dtype, "shape": shape},
+                               attr={**attr, "shape": shape},
                                shapes=[shape], dtypes=[dtype])
         if needs_squeeze:
             new_node = GraphBuilder(g).make_squeeze({"data": new_node.output[0], "axes": [0]}, return_node=True)
@@ -91,7 +95,7 @@ def create_onnx_random_uniform_op(g, tmax, tmin, ru_op, output, to_delete):
             # In many cases there is a shape op in tensorflow before RandomUniform and
             # to make that work for onnx we just need to remove the shape op.
             new_node = g.make_node("RandomUniformLike", inputs=[shape_node.input[0]], name=op_name,
-                                   attr={"low": tmin, "high": tmax, "dtype": dtype},
+                                   attr=attr,
                                    shapes=[shape], dtypes=[dtype])
         else:
             # if the shape is calculated we need to create a tensor so RandomUniformLike
@@ -109,6 +113,6 @@ def create_onnx_random_uniform_op(g, tmax, tmin, ru_op, output, to_delete):
             func(g, fill_node)
             # and use RandomUniformLike to create the random tensor
             new_node = g.make_node("RandomUniformLike", inputs=[fill_node.output[0]], name=op_name,
-                                   attr={"low": tmin, "high": tmax, "dtype": dtype},
+                                   attr=attr,
                                    shapes=[shape], dtypes=[dtype])
     return new_node
-- 
2.43.0


From d579167839b6c74198cf1b126fae2044f3c4e1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:47 +0000
Subject: [PATCH 046/114] fix: unseeded random operators all got the seed 0 and
 drew the same numbers

---
 tf2onnx/onnx_opset/generator.py            | 20 +++++++++++++-------
 tf2onnx/rewriter/random_normal_rewriter.py |  6 ++++--
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/tf2onnx/onnx_opset/generator.py b/tf2onnx/onnx_opset/generator.py
index f6c3735..ec91735 100644
--- a/tf2onnx/onnx_opset/generator.py
+++ b/tf2onnx/onnx_opset/generator.py
@@ -28,6 +28,16 @@ class DirectOp:
 
 @tf_op(["RandomNormal", "RandomUniform", "RandomUniformInt", "RandomStandardNormal"])
 class RandomOp:
+    @classmethod
+    def set_onnx_seed(cls, node):
+        """Combine the two seeds of tensorflow. Without any the op is random, a seed of 0.0 would not be."""
+        seed = utils.combine_seeds(node.get_attr_value("seed", 0), node.get_attr_value("seed2", 0))
+        for name in ("seed", "seed2"):
+            if name in node.attr:
+                del node.attr[name]
+        if seed is not None:
+            node.set_attr("seed", seed)
+
     @classmethod
     def randuniform_int(cls, ctx, rand_node, rand_out, min_inp, max_inp):
         dtype = ctx.get_dtype(rand_out)
@@ -61,8 +71,7 @@ class RandomOp:
         # in the rewriter does not trigger. grappler will send the random uniform
         # with shape as input so we need to pickup the input here and if the shape is
         # const we make it an attribute.
-        seed = node.get_attr("seed2")
-        node.set_attr("seed", float(seed.i))
+        cls.set_onnx_seed(node)
         utils.make_sure(node.inputs[0].is_const(), "%s node with non-const shape requires opset >= 9", node.type)
         shape = node.inputs[0].get_tensor_value()
         ctx.remove_input(node, node.input[0], 0)
@@ -89,8 +98,7 @@ class RandomOp:
         if node.inputs[0].is_const():
             cls.version_1(ctx, node, **kwargs)
         else:
-            seed = node.get_attr("seed2")
-            node.set_attr("seed", float(seed.i))
+            cls.set_onnx_seed(node)
             cast_node = ctx.make_node("Cast", [node.input[0]], attr={'to': onnx_pb.TensorProto.INT64})
             const_node = ctx.make_node("ConstantOfShape", cast_node.output)
             inputs = node.input.copy()
@@ -215,9 +223,7 @@ class Multinomial:
     def version_7(cls, ctx, node, **kwargs):
         # output_dtype output = Multinomial(T logits, int32 num_samples, @int seed, @int seed2, @type output_dtype)
         sample_size = node.inputs[1].get_tensor_value()
-        seed = node.get_attr("seed")
-        if seed:
-            node.set_attr("seed", float(seed.i))
+        RandomOp.set_onnx_seed(node)
         output_dtype = node.get_attr("output_dtype")
         if output_dtype:
             output_dtype = output_dtype.i
diff --git a/tf2onnx/rewriter/random_normal_rewriter.py b/tf2onnx/rewriter/random_normal_rewriter.py
index 2dac0a1..553ae94 100644
--- a/tf2onnx/rewriter/random_normal_rewriter.py
+++ b/tf2onnx/rewriter/random_normal_rewriter.py
@@ -54,9 +54,11 @@ def rewrite_random_normal(g, ops):
             out_name = utils.port_name(op_name)
 
             rn_op = match.get_op('input1')
-            seed = float(rn_op.get_attr('seed2').i)
+            seed = utils.combine_seeds(rn_op.get_attr_value('seed', 0), rn_op.get_attr_value('seed2', 0))
 
-            attr = {"mean": mean, "scale": scale, "dtype": dtype, "seed": seed}
+            attr = {"mean": mean, "scale": scale, "dtype": dtype}
+            if seed is not None:
+                attr["seed"] = seed
             if rn_op.inputs[0].type == "Shape":
                 shape_node = rn_op.inputs[0]
                 new_node = g.make_node("RandomNormalLike", [shape_node.input[0]], outputs=[out_name], name=op_name,
-- 
2.43.0


From 5b5d25052b86473745f1ad986d11002c8361e41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:34 +0000
Subject: [PATCH 047/114] fix: fused LSTM ignored the activations of the cell

---
 tf2onnx/rewriter/lstm_rewriter.py     | 12 ++++++++++++
 tf2onnx/rewriter/lstm_tf2_rewriter.py |  4 ++++
 2 files changed, 16 insertions(+)

diff --git a/tf2onnx/rewriter/lstm_rewriter.py b/tf2onnx/rewriter/lstm_rewriter.py
index 8c2b1b0..1028fe2 100644
--- a/tf2onnx/rewriter/lstm_rewriter.py
+++ b/tf2onnx/rewriter/lstm_rewriter.py
@@ -139,6 +139,18 @@ class LSTMRewriter(LSTMRewriterBase):
             use_peephole = lstm_block_cell.get_attr_value("use_peephole")
             if use_peephole:
                 return False
+        for i in range(self.num_lstm_layers):
+            activations = ["Sigmoid", "Tanh", "Tanh"]
+            if self.lstm_cell_type == RNNUnitType.LSTMCell:
+                # the gates share one activation in onnx and the cell activation might not be tanh
+                match = context.cell_match[i]
+                gates = {match.get_op(name).type for name in ["ft", "it", "ot"]}
+                if len(gates) != 1:
+                    return False
+                cell_output_act = match.get_op("ct'")
+                activations = [gates.pop(), match.get_op("gt").type,
+                               cell_output_act.type if cell_output_act is not None else "Tanh"]
+            context.attributes[i]["activations"] = activations
         return True
 
     def _ct_variable_finder(self, context, i):
diff --git a/tf2onnx/rewriter/lstm_tf2_rewriter.py b/tf2onnx/rewriter/lstm_tf2_rewriter.py
index aea8737..e35da09 100644
--- a/tf2onnx/rewriter/lstm_tf2_rewriter.py
+++ b/tf2onnx/rewriter/lstm_tf2_rewriter.py
@@ -54,6 +54,10 @@ def rewriter_lstm_tf2(g, ops):
                     (activation_h not in default_activations) or
                     (not is_ft_hard_sigmoid and recurrent_activation_f not in default_activations)):
                 continue
+            if not is_ft_hard_sigmoid and \
+                    any(match_result.get_op(name).type != recurrent_activation_f for name in ["it", "ot"]):
+                # onnx has only one activation for all the gates
+                continue
 
             activations_fgh = [
                 recurrent_activation_f,
-- 
2.43.0


From 479a0a752fa11c90dedf23aae62b0f5bfb6e1b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:34 +0000
Subject: [PATCH 048/114] fix: fused GRU accepted any op as the activation of
 the cell

---
 tf2onnx/rewriter/gru_rewriter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/rewriter/gru_rewriter.py b/tf2onnx/rewriter/gru_rewriter.py
index dd105b9..ca15711 100644
--- a/tf2onnx/rewriter/gru_rewriter.py
+++ b/tf2onnx/rewriter/gru_rewriter.py
@@ -119,8 +119,11 @@ class GRUUnitRewriter(UnitRnnRewriterBase):
         # in tf, only activation of hidden gate is optional, input and update gate always use sigmoid
         match = context.cell_match
         activations = ["Sigmoid", "Tanh"]
-        if self.gru_cell_type == RNNUnitType.GRUCell:
+        if self.gru_cell_type in [RNNUnitType.GRUCell, RNNUnitType.CudnnCompatibleGRUCell]:
             activation_op = match.get_op("optional_activation")
+            if activation_op.type not in ["Relu", "Tanh", "Sigmoid", "Elu", "Softsign", "Softplus"]:
+                logger.debug("activation %s is not supported by onnx", activation_op.type)
+                return False
             activations = ["Sigmoid", activation_op.type]
         context.attributes["activations"] = activations
         return True
-- 
2.43.0


From dcba16f5ea01b5f8682518f329f8dc80a64a3528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:44 +0000
Subject: [PATCH 049/114] fix: fused LSTM and GRU dropped ops that a wrapper
 puts around the cell

---
 tf2onnx/rewriter/gru_rewriter.py           |  8 ++++++-
 tf2onnx/rewriter/lstm_rewriter.py          | 17 ++++++++++++-
 tf2onnx/rewriter/unit_rnn_rewriter_base.py | 28 ++++++++++++++++++++++
 3 files changed, 51 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/rewriter/gru_rewriter.py b/tf2onnx/rewriter/gru_rewriter.py
index ca15711..43b61c7 100644
--- a/tf2onnx/rewriter/gru_rewriter.py
+++ b/tf2onnx/rewriter/gru_rewriter.py
@@ -141,7 +141,13 @@ class GRUUnitRewriter(UnitRnnRewriterBase):
         if len(outputs) > 1:
             logger.debug("found %d outputs for gru: %s", len(outputs), outputs)
             return False
-        return True
+
+        if self.gru_cell_type == RNNUnitType.GRUBlockCell:
+            gru_block_cell = context.cell_match.get_op("gru_block_cell")
+            return self._is_plain_cell_loop(context, gru_block_cell.input[0], gru_block_cell.output[3])
+        cell_inputs = context.cell_match.get_op("cell_inputs")
+        return self._is_plain_cell_loop(context, cell_inputs.input[1 if cell_inputs.type == "Concat" else 0],
+                                        context.cell_match.get_op("cell_output").output[0])
 
     def _make_constants(self, context, W_zrh, R_zrh, B_zrh):
         input_size = W_zrh.shape[-1]
diff --git a/tf2onnx/rewriter/lstm_rewriter.py b/tf2onnx/rewriter/lstm_rewriter.py
index 1028fe2..3df3cca 100644
--- a/tf2onnx/rewriter/lstm_rewriter.py
+++ b/tf2onnx/rewriter/lstm_rewriter.py
@@ -228,7 +228,22 @@ class LSTMRewriter(LSTMRewriterBase):
         if len(outputs) > 1:
             logger.debug("found %d outputs for lstm: %s", len(outputs), outputs)
             return False
-        return True
+
+        return self._is_plain_cell_loop(context, self._get_cell_x(context, 0),
+                                        self._get_cell_h(context, self.num_lstm_layers - 1))
+
+    def _get_cell_x(self, context, i):
+        match = context.cell_match[i]
+        if self.lstm_cell_type == RNNUnitType.LSTMBlockCell:
+            return match.get_op("lstm_block_cell").input[0]
+        xh = match.get_op("xh")
+        return xh.input[1 if xh.type == "Concat" else 0]
+
+    def _get_cell_h(self, context, i):
+        match = context.cell_match[i]
+        if self.lstm_cell_type == RNNUnitType.LSTMBlockCell:
+            return match.get_op("lstm_block_cell").output[6]
+        return match.get_op("ht").output[0]
 
     def _convert_gates_icfo_to_iofc(self, gates, axis=0):
         # from Tensorflow
diff --git a/tf2onnx/rewriter/unit_rnn_rewriter_base.py b/tf2onnx/rewriter/unit_rnn_rewriter_base.py
index 7416485..230e05d 100644
--- a/tf2onnx/rewriter/unit_rnn_rewriter_base.py
+++ b/tf2onnx/rewriter/unit_rnn_rewriter_base.py
@@ -267,6 +267,34 @@ class UnitRnnRewriterBase(LoopRewriterBase):
                                        return_node=True)
         self.g.replace_all_inputs(gather_output_id, squeeze_node.output[0])  # ops=self.g.get_nodes()
 
+    def _skip_identity(self, tensor_id):
+        node = self.g.get_node_by_output(tensor_id)
+        while node is not None and node.type == "Identity":
+            tensor_id = node.input[0]
+            node = node.inputs[0]
+        return tensor_id
+
+    def _is_plain_cell_loop(self, context, cell_input, cell_output):
+        """
+        Check that the loop feeds the scanned input to the cell and collects the output of the cell as is,
+        apart from the select that is added for sequence_length. Wrappers might put more ops around the cell.
+        """
+        loop_props = context.loop_properties
+        scan_inputs = [i.id for i in loop_props.scan_inputs]
+        if [self._skip_identity(cell_input)] != scan_inputs and [cell_input] != scan_inputs:
+            logger.debug("input of the cell is not the input of the loop")
+            return False
+        for scan_output in loop_props.scan_outputs:
+            output_id = self._skip_identity(scan_output.id)
+            node = self.g.get_node_by_output(output_id)
+            candidates = [output_id]
+            if node is not None and is_tf_select_op(node):
+                candidates.extend(self._skip_identity(i) for i in node.input[1:])
+            if cell_output not in candidates:
+                logger.debug("output of the loop is not the output of the cell")
+                return False
+        return True
+
     def _find_state_variable_with_select(self, context,
                                          next_iteration_input,
                                          switch_true_identity_consumers):
-- 
2.43.0


From 7c0837d03d639b8d65827a6037c0e35d7b0d3e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:44 +0000
Subject: [PATCH 050/114] fix: fused LSTM with a concatenated state swapped the
 initial c and h

---
 tf2onnx/rewriter/lstm_rewriter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/rewriter/lstm_rewriter.py b/tf2onnx/rewriter/lstm_rewriter.py
index 3df3cca..ee710b9 100644
--- a/tf2onnx/rewriter/lstm_rewriter.py
+++ b/tf2onnx/rewriter/lstm_rewriter.py
@@ -371,7 +371,8 @@ class LSTMRewriter(LSTMRewriterBase):
         slice_node2 = GraphBuilder(self.g).make_slice(inputs_map)
         unsqueeze_node_2 = gb.make_unsqueeze({'data': slice_node2, "axes": [0]}, return_node=True)
 
-        return unsqueeze_node_1.output[0], unsqueeze_node_2.output[0]
+        # the state is a concat of c and h
+        return unsqueeze_node_2.output[0], unsqueeze_node_1.output[0]
 
     def _process_tuple_ch_init_nodes(self, context, i):
         h_init_input_id = context.state_variables["ht" + str(i)].enter_input_id
-- 
2.43.0


From 11627928a1d51d8fb18916477874aec7655a56a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:44 +0000
Subject: [PATCH 051/114] fix: fused LSTM and GRU changed the initial state for
 its other consumers

---
 tf2onnx/rewriter/gru_rewriter.py  | 2 --
 tf2onnx/rewriter/lstm_rewriter.py | 2 --
 2 files changed, 4 deletions(-)

diff --git a/tf2onnx/rewriter/gru_rewriter.py b/tf2onnx/rewriter/gru_rewriter.py
index 43b61c7..fa09e42 100644
--- a/tf2onnx/rewriter/gru_rewriter.py
+++ b/tf2onnx/rewriter/gru_rewriter.py
@@ -238,8 +238,6 @@ class GRUUnitRewriter(UnitRnnRewriterBase):
             return
         squeeze_node = GraphBuilder(self.g).make_unsqueeze(
             {'data': initializer_input_id, 'axes': [0]}, return_node=True)
-        to_replace = [n for n in self.g.get_nodes() if n != squeeze_node]
-        self.g.replace_all_inputs(initializer_input_id, squeeze_node.output[0], ops=to_replace)
         context.onnx_input_ids["initial_state"] = squeeze_node.output[0]
 
     def create_rnn_node(self, context):
diff --git a/tf2onnx/rewriter/lstm_rewriter.py b/tf2onnx/rewriter/lstm_rewriter.py
index ee710b9..61e8c7f 100644
--- a/tf2onnx/rewriter/lstm_rewriter.py
+++ b/tf2onnx/rewriter/lstm_rewriter.py
@@ -392,8 +392,6 @@ class LSTMRewriter(LSTMRewriterBase):
 
         gb = GraphBuilder(self.g)
         squeeze_node = gb.make_unsqueeze({'data': initializer_input_id, "axes": [0]}, return_node=True)
-        to_replace = [n for n in self.g.get_nodes() if n != squeeze_node]
-        self.g.replace_all_inputs(initializer_input_id, squeeze_node.output[0], ops=to_replace)
         return squeeze_node.output[0]
 
     def create_single_rnn_node(self, context, i):
-- 
2.43.0


From a921fe80daad33df202fe449765c3b070dc49399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:37 +0000
Subject: [PATCH 052/114] fix: have_same_inference_value took any two inputs or
 constants for the same

---
 tf2onnx/utils.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/utils.py b/tf2onnx/utils.py
index d23ce2a..52b5668 100644
--- a/tf2onnx/utils.py
+++ b/tf2onnx/utils.py
@@ -582,7 +582,13 @@ def have_same_inference_value(g, output_1, output_2):
     def is_same(node_1, node_2):
         # go further util two instance isn't the same
         if node_1 == node_2:
-            return True
+            return output_index(node_1, output_1) == output_index(node_2, output_2)
+        # inputs of the graph get different values, constants might hold different values
+        if node_1.is_graph_input() or node_2.is_graph_input():
+            return False
+        if node_1.is_const() and node_2.is_const():
+            val_1, val_2 = (n.get_tensor_value(as_list=False) for n in (node_1, node_2))
+            return val_1.dtype == val_2.dtype and np.array_equal(val_1, val_2)
         # check body graph
         if node_1.get_body_graphs() or node_2.get_body_graphs():
             logger.warning("Comparing two nodes containing body graph isn't supported.")
@@ -599,12 +605,20 @@ def have_same_inference_value(g, output_1, output_2):
         for name in node_1.get_onnx_attrs().keys(): # pylint: disable=consider-iterating-dictionary
             if node_1.get_attr_value(name) != node_2.get_attr_value(name):
                 return False
-        return True
+        # check that it's the same output of nodes with the same number of inputs
+        return len(node_1.input) == len(node_2.input) and \
+            output_index(node_1, output_1) == output_index(node_2, output_2)
+
+    def output_index(node, output):
+        return node.output.index(output)
 
     if output_1 == output_2:
         return True
     node_1 = g.get_node_by_output(output_1)
     node_2 = g.get_node_by_output(output_2)
+    # optional inputs that aren't given
+    if node_1 is None or node_2 is None:
+        return False
     # compare their domain, attr, etc. see __eq__ in Node class
     if not is_same(node_1, node_2):
         return False
-- 
2.43.0


From a92b850ca4c7f13565807b460f45bad581bc0cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:15 +0000
Subject: [PATCH 053/114] fix: merging a bidirectional rnn removed a reverse
 that is still used

---
 tf2onnx/rewriter/rnn_utils.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/tf2onnx/rewriter/rnn_utils.py b/tf2onnx/rewriter/rnn_utils.py
index 9cd2f2a..51a8631 100644
--- a/tf2onnx/rewriter/rnn_utils.py
+++ b/tf2onnx/rewriter/rnn_utils.py
@@ -709,18 +709,20 @@ def slice_birnn_for_original_rnn_consumers(g, rnn_fw, rnn_bw, bi_rnn, rnn_output
 
 
 def remove_reverse_in_bw_input(g, bw_rnn_input_x, rnn_type):
-    old_x_consumers = g.find_output_consumers(bw_rnn_input_x)
-    # the transpose/reverse here must be followed by RNN if it is still useful.
-    # this is guaranteed by dynamic_rnn logic.
-    old_x_has_rnn_as_consumer = [n for n in old_x_consumers if n.type == onnx_rnn_type_mapping[rnn_type]]
-    if not old_x_has_rnn_as_consumer:
-        logger.debug("plan to remove useless reverse op in bw")
-        reverse_node = g.get_node_by_output(bw_rnn_input_x)
-
-        if reverse_node.type == "Transpose":
-            reverse_node = reverse_node.inputs[0]
+    reverse_node = g.get_node_by_output(bw_rnn_input_x)
+    if reverse_node.type == "Transpose":
+        reverse_node = reverse_node.inputs[0]
+
+    def needs_only_shape(tensor_id):
+        # the order of the values doesn't matter
+        return tensor_id not in g.outputs and all(
+            c.type == "Shape" or (c.type == "Transpose" and needs_only_shape(c.output[0]))
+            for c in g.find_output_consumers(tensor_id)
+        )
 
+    if needs_only_shape(reverse_node.output[0]):
+        logger.debug("plan to remove useless reverse op in bw")
         g.replace_all_inputs(reverse_node.output[0], reverse_node.input[0])  # ops=g.get_nodes()
         g.remove_node(reverse_node.name)
     else:
-        raise ValueError("Reverse is still used by RNN as input, cannot remove")
+        logger.debug("output of %s is still used", reverse_node.name)
-- 
2.43.0


From 3a099ec54a204867dfb7dc567118fe2bd9a4c371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:15 +0000
Subject: [PATCH 054/114] fix: rnn between reverses of other axes or other
 lengths became a bidirectional rnn

---
 tf2onnx/rewriter/bigru_rewriter.py  |  4 +-
 tf2onnx/rewriter/bilstm_rewriter.py |  6 +--
 tf2onnx/rewriter/rnn_utils.py       | 73 +++++++++++++++++++++++++----
 3 files changed, 68 insertions(+), 15 deletions(-)

diff --git a/tf2onnx/rewriter/bigru_rewriter.py b/tf2onnx/rewriter/bigru_rewriter.py
index 8b3b0e6..9bc6ef3 100644
--- a/tf2onnx/rewriter/bigru_rewriter.py
+++ b/tf2onnx/rewriter/bigru_rewriter.py
@@ -77,9 +77,9 @@ def process_bigru(g, bi_grus):
         to_remove = [gru_fw.name, gru_fw.input[1], gru_fw.input[2], gru_fw.input[3],
                      gru_bw.name, gru_bw.input[1], gru_bw.input[2], gru_bw.input[3]]
         rnn_utils.slice_birnn_for_original_rnn_consumers(
-            g, gru_fw, gru_bw, bi_gru_node, 0, all_nodes, to_remove)
+            g, gru_fw, gru_bw, bi_gru_node, 0, all_nodes, to_remove, rnn_utils.ONNX_RNN_TYPE.GRU)
         rnn_utils.slice_birnn_for_original_rnn_consumers(
-            g, gru_fw, gru_bw, bi_gru_node, 1, all_nodes, to_remove)
+            g, gru_fw, gru_bw, bi_gru_node, 1, all_nodes, to_remove, rnn_utils.ONNX_RNN_TYPE.GRU)
 
         gru_bw_old_x = gru_bw.input[0]
         for n in to_remove:
diff --git a/tf2onnx/rewriter/bilstm_rewriter.py b/tf2onnx/rewriter/bilstm_rewriter.py
index b59e051..a450f4c 100644
--- a/tf2onnx/rewriter/bilstm_rewriter.py
+++ b/tf2onnx/rewriter/bilstm_rewriter.py
@@ -77,13 +77,13 @@ def process_bilstm(g, bi_lstms):
         to_remove = [lstm_fw.name, lstm_fw.input[1], lstm_fw.input[2], lstm_fw.input[3],
                      lstm_bw.name, lstm_bw.input[1], lstm_bw.input[2], lstm_bw.input[3]]
         rnn_utils.slice_birnn_for_original_rnn_consumers(
-            g, lstm_fw, lstm_bw, bi_lstm_node, 0, all_nodes, to_remove
+            g, lstm_fw, lstm_bw, bi_lstm_node, 0, all_nodes, to_remove, rnn_utils.ONNX_RNN_TYPE.LSTM
         )
         rnn_utils.slice_birnn_for_original_rnn_consumers(
-            g, lstm_fw, lstm_bw, bi_lstm_node, 1, all_nodes, to_remove
+            g, lstm_fw, lstm_bw, bi_lstm_node, 1, all_nodes, to_remove, rnn_utils.ONNX_RNN_TYPE.LSTM
         )
         rnn_utils.slice_birnn_for_original_rnn_consumers(
-            g, lstm_fw, lstm_bw, bi_lstm_node, 2, all_nodes, to_remove
+            g, lstm_fw, lstm_bw, bi_lstm_node, 2, all_nodes, to_remove, rnn_utils.ONNX_RNN_TYPE.LSTM
         )
 
         lstm_bw_old_x = lstm_bw.input[0]
diff --git a/tf2onnx/rewriter/rnn_utils.py b/tf2onnx/rewriter/rnn_utils.py
index 51a8631..99e3e4a 100644
--- a/tf2onnx/rewriter/rnn_utils.py
+++ b/tf2onnx/rewriter/rnn_utils.py
@@ -504,17 +504,26 @@ def find_bidirectional_rnns(g, ops, rnn_type):
         temp = n.inputs[0]
         is_bw = False
         is_transposed = False
+        time_axis = 0
         if temp.type == "Transpose":
+            if not is_batch_time_transpose(temp):
+                logger.debug("unexpected transpose before rnn %s", n.name)
+                continue
+            time_axis = 1
             input_id = temp.input[0]
             temp = temp.inputs[0]
             is_transposed = True
 
         if utils.is_tf_reverse_op(temp):
+            if not is_reverse_of_time(g, temp, time_axis, n, rnn_type):
+                logger.debug("op %s doesn't reverse what rnn %s works on", temp.name, n.name)
+                continue
             input_id = temp.input[0]
             temp = temp.inputs[0]
             is_bw = True
 
-        if (not is_transposed) and temp.type == "Transpose":
+        if (not is_transposed) and temp.type == "Transpose" and is_batch_time_transpose(temp):
+            is_transposed = True
             input_id = temp.input[0]
             temp = temp.inputs[0]
 
@@ -528,17 +537,18 @@ def find_bidirectional_rnns(g, ops, rnn_type):
         if is_bw:
             # if output 0 is consumed and there is no reverse after the 1st output.
             # it's not backward rnn.
-            if g.find_output_consumers(n.output[0]) and not get_reverse_or_slice_nodes_after_y_output(g, n):
+            if g.find_output_consumers(n.output[0]) and \
+                    not get_reverse_or_slice_nodes_after_y_output(g, n, rnn_type):
                 logger.warning("rnn %s following Reverse op isn't the part of bi-rnn.", n.name)
                 continue
 
             logger.debug("find bw rnn %s", input_ids)
             for input_id in input_ids:
-                bw_rnns[input_id].append(n)
+                bw_rnns[(input_id, is_transposed)].append(n)
         else:
             logger.debug("find fw rnn %s", input_ids)
             for input_id in input_ids:
-                fw_rnns[input_id].append(n)
+                fw_rnns[(input_id, is_transposed)].append(n)
 
     # fw_rnn and bw_rnn must share the same input
     birnn_input = list(set(fw_rnns.keys()).intersection(bw_rnns.keys()))
@@ -558,6 +568,43 @@ def find_bidirectional_rnns(g, ops, rnn_type):
     return bi_rnns
 
 
+def is_batch_time_transpose(node):
+    """Check whether a transpose swaps the batch and time dimensions of the input or output of a rnn."""
+    if len(node.input) > 1:
+        if not node.inputs[1].is_const():
+            return False
+        perm = node.inputs[1].get_tensor_value()
+    else:
+        perm = node.get_attr_value("perm")
+    return perm == [1, 0, 2]
+
+
+def is_reverse_of_time(g, reverse_node, time_axis, rnn_node, rnn_type):
+    """Check whether a reverse op reverses the time dimension of what rnn_node works on."""
+    seq_len = rnn_node.input[onnx_rnn_seq_len_index_mapping[rnn_type]]
+    if reverse_node.type == "ReverseV2":
+        if seq_len != utils.ONNX_EMPTY_INPUT or not reverse_node.inputs[1].is_const():
+            return False
+        axes = np.reshape(reverse_node.inputs[1].get_tensor_value(as_list=False), [-1]).tolist()
+        return [a + 3 if a < 0 else a for a in axes] == [time_axis]
+
+    # ReverseSequence
+    seq_dim = reverse_node.get_attr_value("seq_dim")
+    batch_dim = reverse_node.get_attr_value("batch_dim", 0)
+    if (seq_dim, batch_dim) != (time_axis, 1 - time_axis):
+        return False
+
+    def skip_casts(tensor_id):
+        node = g.get_node_by_output(tensor_id)
+        while node is not None and node.type in ["Cast", "Identity"]:
+            tensor_id = node.input[0]
+            node = node.inputs[0]
+        return tensor_id
+
+    return seq_len != utils.ONNX_EMPTY_INPUT and \
+        utils.have_same_inference_value(g, skip_casts(seq_len), skip_casts(reverse_node.input[1]))
+
+
 def belong_to_birnn(g, fw_rnn, bw_rnn, rnn_type):
     """
     Check whether fw_rnn and bw_rnn are part of the same birnn.
@@ -594,11 +641,15 @@ def is_tail_slice_op(node):
         node.inputs[1].get_tensor_value() == [-1] and
         node.inputs[2].get_tensor_value() == [0] and
         node.inputs[3].get_tensor_value() == [1] and
-        node.get_attr('shrink_axis_mask').i == 1
+        node.get_attr('shrink_axis_mask').i == 1 and
+        not any(node.get_attr_value(name, 0) for name in
+                ['begin_mask', 'end_mask', 'ellipsis_mask', 'new_axis_mask'])
     )
 
 
-def get_reverse_or_slice_nodes_after_y_output(g, rnn_bw):
+def get_reverse_or_slice_nodes_after_y_output(g, rnn_bw, rnn_type):
+    time_axis = 0
+    has_seq_len = rnn_bw.input[onnx_rnn_seq_len_index_mapping[rnn_type]] != utils.ONNX_EMPTY_INPUT
     bw_consumers = g.find_output_consumers(rnn_bw.output[0])
 
     # todo: figure out a better way to remove reverse op
@@ -608,7 +659,8 @@ def get_reverse_or_slice_nodes_after_y_output(g, rnn_bw):
         s = squeeze_nodes[0]
         reverse_or_slice_nodes = g.find_output_consumers(s.output[0])
         if len(reverse_or_slice_nodes) == 1:
-            if reverse_or_slice_nodes[0].type == "Transpose":
+            if reverse_or_slice_nodes[0].type == "Transpose" and is_batch_time_transpose(reverse_or_slice_nodes[0]):
+                time_axis = 1
                 reverse_or_slice_nodes = g.find_output_consumers(reverse_or_slice_nodes[0].output[0])
 
             if len(reverse_or_slice_nodes) == 1 and reverse_or_slice_nodes[0].type == "Identity":
@@ -617,7 +669,8 @@ def get_reverse_or_slice_nodes_after_y_output(g, rnn_bw):
                     reverse_or_slice_nodes = g.find_output_consumers(reverse_or_slice_nodes[0].output[0])
 
             are_all_reverse_or_slice = all([
-                utils.is_tf_reverse_op(r_op) or is_tail_slice_op(r_op)
+                is_reverse_of_time(g, r_op, time_axis, rnn_bw, rnn_type) if utils.is_tf_reverse_op(r_op)
+                else is_tail_slice_op(r_op) and time_axis == 0 and not has_seq_len
                 for r_op in reverse_or_slice_nodes
             ])
             if are_all_reverse_or_slice:
@@ -658,7 +711,7 @@ def process_single_init_node(g, fw_init_input_id, bw_init_input_id, to_append):
     return init_node
 
 
-def slice_birnn_for_original_rnn_consumers(g, rnn_fw, rnn_bw, bi_rnn, rnn_output_index, all_nodes, to_remove):
+def slice_birnn_for_original_rnn_consumers(g, rnn_fw, rnn_bw, bi_rnn, rnn_output_index, all_nodes, to_remove, rnn_type):
     fw_consumers = g.find_output_consumers(rnn_fw.output[rnn_output_index])
     bw_consumers = g.find_output_consumers(rnn_bw.output[rnn_output_index])
     if not fw_consumers and not bw_consumers:
@@ -667,7 +720,7 @@ def slice_birnn_for_original_rnn_consumers(g, rnn_fw, rnn_bw, bi_rnn, rnn_output
     if rnn_output_index == 0:
         axis = 1
         # remove reverse(return_sequence=True) or tail slice(return_sequence=False) op for rnn_bw
-        reverse_or_slice_nodes = get_reverse_or_slice_nodes_after_y_output(g, rnn_bw)
+        reverse_or_slice_nodes = get_reverse_or_slice_nodes_after_y_output(g, rnn_bw, rnn_type)
 
         for r_op in reverse_or_slice_nodes:
             if utils.is_tf_reverse_op(r_op):
-- 
2.43.0


From 9f1b3d63c8b4d0eaa0f08b839731ce5bacc04bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:34 +0000
Subject: [PATCH 055/114] fix: a node of a nested graph named like a node
 around it made the graph look cyclic

---
 tf2onnx/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/graph.py b/tf2onnx/graph.py
index f7b8016..d606ac0 100644
--- a/tf2onnx/graph.py
+++ b/tf2onnx/graph.py
@@ -1056,7 +1056,7 @@ class Graph(object):
             for inp in sorted(all_input):
                 j = self.get_node_by_output(inp)
                 utils.make_sure(j is not None, "Cannot find node with output %r in graph %r", inp, self.graph_name)
-                if self.parent_graph and j.name not in op_name_to_index:
+                if self.parent_graph and (j.name not in op_name_to_index or j is not ops[op_name_to_index[j.name]]):
                     # there might be some outer-scoped inputs for an inner Graph.
                     pass
                 else:
-- 
2.43.0


From af941b771695b3deae581e9e3404e376d7236159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:40 +0000
Subject: [PATCH 056/114] fix: readers of a tensor inside nested graphs were
 lost, counted twice or outlived their graph

---
 tf2onnx/graph.py | 39 ++++++++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/tf2onnx/graph.py b/tf2onnx/graph.py
index d606ac0..aa4bbaa 100644
--- a/tf2onnx/graph.py
+++ b/tf2onnx/graph.py
@@ -361,6 +361,9 @@ class Node(object):
         if self.name not in self.graph.contained_graphs:
             self.graph.contained_graphs[self.name] = {}
 
+        replaced = self.graph.contained_graphs[self.name].get(attr_name)
+        if replaced is not None and replaced is not graph:
+            replaced.unregister_inputs_in_parent_graphs()
         self.graph.contained_graphs[self.name].update({attr_name: graph})
         graph.parent_graph = self.graph
         graph.register_inputs_in_parent_graphs()
@@ -697,8 +700,8 @@ class Graph(object):
         utils.make_sure(node_name in self._nodes_by_name, "node %s not in current graph, cannot remove", node_name)
         node = self.get_node_by_name(node_name)
         del self._nodes_by_name[node_name]
-        if node_name in self.contained_graphs:
-            del self.contained_graphs[node_name]
+        for body_graph in self.contained_graphs.pop(node_name, {}).values():
+            body_graph.unregister_inputs_in_parent_graphs()
 
         if node in self.inputs:
             self.inputs.remove(node)
@@ -740,6 +743,11 @@ class Graph(object):
             if op.name in self.contained_graphs:
                 remained_sub_graphs[op.name] = self.contained_graphs[op.name]
 
+        for node_name, body_graphs in self.contained_graphs.items():
+            if node_name not in remained_sub_graphs:
+                for body_graph in body_graphs.values():
+                    body_graph.unregister_inputs_in_parent_graphs()
+
         self._nodes = ops
         self.contained_graphs = remained_sub_graphs
         self._nodes_by_name = {op.name: op for op in ops}
@@ -1413,7 +1421,7 @@ class Graph(object):
         if self.parent_graph is not None:
             if input_name not in self.parent_graph._input_to_graph:
                 self.parent_graph._input_to_graph[input_name] = {}
-            self.parent_graph._input_to_graph[input_name][id(self)] = self
+            self.parent_graph._input_to_graph[input_name][self] = self
             self.parent_graph._register_input_name(input_name, node, only_graph=True)
 
     def register_inputs_in_parent_graphs(self):
@@ -1423,17 +1431,26 @@ class Graph(object):
         for name in names:
             self._register_input_name(name, None, only_graph=True)
 
+    def unregister_inputs_in_parent_graphs(self):
+        """Forget the values read in this graph and its subgraphs, it is no longer part of the parent graph."""
+        if self.parent_graph is None:
+            return
+        for name, graphs in list(self.parent_graph._input_to_graph.items()):
+            if self in graphs:
+                del graphs[self]
+                self.parent_graph._unregister_input_name(name, None, only_graph=True)
+
     def _unregister_input_name(self, input_name, node, only_graph=False):
         "Unregister node taking a specific input."
-        node_name = node.name
-        if not only_graph:
-            if input_name in self._output_to_consumers[input_name]:
-                if node_name in self._output_to_consumers[input_name]:
-                    self._output_to_consumers[input_name].remove(node_name)
+        if not only_graph and input_name in self._output_to_consumers:
+            self._output_to_consumers[input_name].discard(node.name)
+        if self._output_to_consumers.get(input_name) or self._input_to_graph.get(input_name):
+            # another node of this graph or of a graph nested in it still reads it
+            return
         if (self.parent_graph is not None and
                 input_name in self.parent_graph._input_to_graph and
-                id(self) in self.parent_graph._input_to_graph[input_name]):
-            del self.parent_graph._input_to_graph[input_name][id(self)]
+                self in self.parent_graph._input_to_graph[input_name]):
+            del self.parent_graph._input_to_graph[input_name][self]
             self.parent_graph._unregister_input_name(input_name, node, only_graph=True)
 
     def replace_all_inputs(self, old_input, new_input, ops=None):
@@ -1470,7 +1487,7 @@ class Graph(object):
 
         # modify references in sub graphs
         if old_input in self._input_to_graph:
-            for g in self._input_to_graph[old_input].values():
+            for g in list(self._input_to_graph[old_input]):
                 g.replace_all_inputs(old_input, new_input,
                                      ops=g.get_nodes() if keep_ops else None)
 
-- 
2.43.0


From dc8dfa11f0895749c0a7f981da947de018a105b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:40 +0000
Subject: [PATCH 057/114] fix: a node that reads a tensor twice was no longer
 among its readers after one use was replaced

---
 tf2onnx/graph.py | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/tf2onnx/graph.py b/tf2onnx/graph.py
index aa4bbaa..9194651 100644
--- a/tf2onnx/graph.py
+++ b/tf2onnx/graph.py
@@ -1300,11 +1300,9 @@ class Graph(object):
         assert isinstance(node, Node) and isinstance(to_be_removed, str)
         if input_index is not None:
             assert node.input[input_index] == to_be_removed
-            if node.input[input_index] in self._output_to_consumers:
-                to_ops = self._output_to_consumers[node.input[input_index]]
-                if node.name in to_ops:
-                    to_ops.remove(node.name)
             del node.input[input_index]
+            if to_be_removed not in node.input:
+                self._unregister_input_name(to_be_removed, node)
             return
 
         for i, name in enumerate(node.input):
@@ -1510,11 +1508,9 @@ class Graph(object):
         else:
             raise RuntimeError("Unable to replace input %r into %r for node %r." % (old_input, new_input, node.name))
 
-        to_ops = self._output_to_consumers.get(old_input, None)
-        if to_ops is not None:
-            if node.name in to_ops:
-                # A node may take twice the same entry.
-                to_ops.remove(node.name)
+        if old_input not in node.input:
+            # A node may take twice the same entry.
+            self._unregister_input_name(old_input, node)
 
         self._register_input_name(new_input, node)
         return is_replaced
@@ -1523,12 +1519,8 @@ class Graph(object):
         """Replace node inputs."""
         assert isinstance(node, Node) and isinstance(new_inputs, list)
 
-        for old_input in node.input:
-            to_ops = self._output_to_consumers.get(old_input, None)
-            if to_ops is not None and old_input in to_ops:
-                # To avoid issues when a node
-                # takes twice the same entry.
-                to_ops.remove(old_input)
+        for old_input in set(node.input) - set(new_inputs):
+            self._unregister_input_name(old_input, node)
 
         for input_name in new_inputs:
             assert isinstance(input_name, str)
-- 
2.43.0


From 2902d97138521ca68428bae7eedce7806510489a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:57 +0000
Subject: [PATCH 058/114] fix: CropAndResize gave its transposed output the
 untransposed shape

---
 tf2onnx/custom_opsets/ms.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/custom_opsets/ms.py b/tf2onnx/custom_opsets/ms.py
index c867477..76489f1 100644
--- a/tf2onnx/custom_opsets/ms.py
+++ b/tf2onnx/custom_opsets/ms.py
@@ -102,8 +102,12 @@ class CropAndResize:
         node.attr['method'].name = 'mode'
         node.domain = constants.MICROSOFT_DOMAIN
         ctx.insert_new_node_on_input(node, "Transpose", node.input[0], perm=constants.NHWC_TO_NCHW)
-        ctx.insert_new_node_on_output("Transpose", node.output[0], node.name + '_transposed',
-                                      None, perm=constants.NCHW_TO_NHWC)
+        shape = ctx.get_shape(node.output[0])
+        transposed = ctx.insert_new_node_on_output("Transpose", node.output[0], node.name + '_transposed',
+                                                   None, perm=constants.NCHW_TO_NHWC)
+        if shape is not None:
+            ctx.set_shape(node.output[0], [shape[i] for i in constants.NHWC_TO_NCHW])
+            ctx.set_shape(transposed.output[0], shape)
 
 @tf_op("MatrixInverse", domain=constants.MICROSOFT_DOMAIN, onnx_op="Inverse")
 class Inverse:
-- 
2.43.0


From 19ca5f56ed45aa80d8317c8fcc5c9f7041fd141a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:57 +0000
Subject: [PATCH 059/114] fix: lookup of a missing constant integer key failed
 instead of giving the default

---
 tf2onnx/custom_opsets/onnx_ml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/custom_opsets/onnx_ml.py b/tf2onnx/custom_opsets/onnx_ml.py
index f0f2234..01dabf5 100644
--- a/tf2onnx/custom_opsets/onnx_ml.py
+++ b/tf2onnx/custom_opsets/onnx_ml.py
@@ -68,7 +68,7 @@ class LookupTableFind:
                 lookup_result = np.vectorize(lambda key: key_to_val.get(key.encode("UTF-8"), default_val_np))(key_np)
             else:
                 key_to_val = dict(zip(cats_int64s, cats_strings))
-                lookup_result = np.vectorize(lambda key: key_to_val.get(key, default_val_np))(key_np).astype(object)
+                lookup_result = np.vectorize(lambda key: key_to_val.get(key, default_val), otypes=[object])(key_np)
             onnx_tensor = numpy_helper.from_array(lookup_result, node_name)
             ctx.make_node("Const", name=node_name, inputs=[], outputs=node_outputs,
                           attr={"value": onnx_tensor}, shapes=[lookup_result.shape], dtypes=[dtype])
-- 
2.43.0


From d2cfb8ea30768cc6bc1eec903c3a253b7ff41437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:05 +0000
Subject: [PATCH 060/114] fix: a StaticRegexReplace that cannot be converted
 was left half rewritten

---
 tf2onnx/custom_opsets/string_ops.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/custom_opsets/string_ops.py b/tf2onnx/custom_opsets/string_ops.py
index 6a75d55..89d48b5 100644
--- a/tf2onnx/custom_opsets/string_ops.py
+++ b/tf2onnx/custom_opsets/string_ops.py
@@ -49,12 +49,12 @@ class StringToHashBucketFast:
 class StaticRegexReplace:
     @classmethod
     def version_1(cls, ctx, node, **kwargs):
+        utils.make_sure(node.get_attr_value("replace_global") != 0,
+                        "Can not convert StaticRegexReplace if replace_global is False")
         node.domain = constants.CONTRIB_OPS_DOMAIN
         node.type = "StringRegexReplace"
         pattern = node.get_attr_str("pattern")
         rewrite = node.get_attr_str("rewrite")
-        utils.make_sure(node.get_attr_value("replace_global") != 0,
-                        "Can not convert StaticRegexReplace if replace_global is False")
         pattern_node = ctx.make_const(utils.make_name("pattern"), np.array([pattern], object))
         rewrite_node = ctx.make_const(utils.make_name("rewrite"), np.array([rewrite], object))
         del node.attr["pattern"]
-- 
2.43.0


From 98482bf00a95a9b21b839695713d029cecfbdd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:05 +0000
Subject: [PATCH 061/114] fix: ReduceJoin with a negative axis or keep_dims
 joined or expanded the wrong axis

---
 tf2onnx/custom_opsets/string_ops.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/tf2onnx/custom_opsets/string_ops.py b/tf2onnx/custom_opsets/string_ops.py
index 89d48b5..7215b00 100644
--- a/tf2onnx/custom_opsets/string_ops.py
+++ b/tf2onnx/custom_opsets/string_ops.py
@@ -92,13 +92,17 @@ class StringJoin:
 class ReduceJoin:
     @classmethod
     def version_1(cls, ctx, node, **kwargs):
-        node.domain = constants.CONTRIB_OPS_DOMAIN
-        node.type = "StringJoin"
         axis_node = ctx.get_node_by_output(node.input[1])
         axis = axis_node.get_attr_value('value')
         utils.make_sure(axis.dims in [[], [1]], "Only a single axis is supported for ReduceJoin node")
-        axis = to_array(axis)
-        new_axis_node = ctx.make_const(utils.make_name("axis"), np.array(axis, np.int64).reshape((1)))
+        axis = to_array(axis).reshape([1]).astype(np.int64)
+        if axis[0] < 0:
+            rank = ctx.get_rank(node.input[0])
+            utils.make_sure(rank is not None, "Input rank must be known for negative ReduceJoin axis")
+            axis = axis + rank
+        node.domain = constants.CONTRIB_OPS_DOMAIN
+        node.type = "StringJoin"
+        new_axis_node = ctx.make_const(utils.make_name("axis"), axis)
         separator = node.get_attr_value("separator")
         if isinstance(separator, bytes):
             separator = separator.decode()
@@ -107,7 +111,7 @@ class ReduceJoin:
         keep_dims = node.get_attr_value("keep_dims")
         if keep_dims:
             unsqueeze_node = GraphBuilder(ctx).make_unsqueeze(
-                {'data': node.output[0], 'axes': [-1]},
+                {'data': node.output[0], 'axes': axis.tolist()},
                 name=node.name + '/Unsqueeze'
                 )
             ctx.insert_node_on_output(ctx.get_node_by_output(unsqueeze_node))
-- 
2.43.0


From 02298ceeb575a1129898aa7827fee0e9c610dcda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:52 +0000
Subject: [PATCH 062/114] fix: AsString of booleans gave 0 and 1 instead of
 false and true

---
 tf2onnx/onnx_opset/tensor.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index 1cd4ad0..1c52b5f 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -4028,7 +4028,14 @@ class AsString:
             logger.warning(
                 "ONNX does not support precision, scientific and fill attributes for AsString")
         shapes = node.output_shapes
+        inp_dtype = ctx.get_dtype(node.input[0])
         ctx.remove_node(node.name)
+        if inp_dtype == TensorProto.BOOL:
+            true_const = ctx.make_const(utils.make_name("true"), np.array("true", object)).output[0]
+            false_const = ctx.make_const(utils.make_name("false"), np.array("false", object)).output[0]
+            ctx.make_node("Where", [node.input[0], true_const, false_const], name=node.name, outputs=node.output,
+                          dtypes=[TensorProto.STRING], shapes=shapes)
+            return
         _ = ctx.make_node("Cast", node.input, name=node.name,
                           dtypes=[TensorProto.STRING], shapes=shapes, attr={"to": TensorProto.STRING})
 
-- 
2.43.0


From 16511f32bb38887e0289984b507ad5406c83372e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:41 +0000
Subject: [PATCH 063/114] fix: RFFT2D of a double input mixed float and double
 operands

---
 tf2onnx/onnx_opset/signal.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/tf2onnx/onnx_opset/signal.py b/tf2onnx/onnx_opset/signal.py
index 1fd2700..6fcf5f6 100644
--- a/tf2onnx/onnx_opset/signal.py
+++ b/tf2onnx/onnx_opset/signal.py
@@ -493,7 +493,7 @@ class CommonFFT2DOp(CommonFFTOp):
         value = np.array([1], dtype=np.int64)
         varx['Co_Concatcst'] = ctx.make_const(name=utils.make_name('init_Co_Concatcst'), np_val=value).name
 
-        value = np.array([-6.2831854820251465], dtype=np_dtype)
+        value = np.array([-2 * np.pi], dtype=np_dtype)
         varx['Id_Identitycst'] = ctx.make_const(name=utils.make_name('init_Id_Identitycst'), np_val=value).name
 
         value = np.array([2], dtype=np.int64)
@@ -547,7 +547,7 @@ class CommonFFT2DOp(CommonFFTOp):
 
         inputs = [varx['Ad_C01']]
         node = ctx.make_node('Cast', inputs=inputs, attr=dict(
-            to=onnx_pb.TensorProto.FLOAT), name=utils.make_name('Ca_Cast'))
+            to=onnx_dtype), name=utils.make_name('Ca_Cast'))
         varx['Ca_output01'] = node.output[0]
 
         node = GraphBuilder(ctx).make_unsqueeze({'data': varx['Ga_output0'], 'axes': [0]}, return_node=True)
@@ -563,7 +563,7 @@ class CommonFFT2DOp(CommonFFTOp):
 
         inputs = [varx['Re_reshaped0']]
         node = ctx.make_node('Cast', inputs=inputs, attr=dict(
-            to=onnx_pb.TensorProto.FLOAT), name=utils.make_name('Ca_Cast1'))
+            to=onnx_dtype), name=utils.make_name('Ca_Cast1'))
         varx['Ca_output0'] = node.output[0]
 
         inputs = [varx['Ca_output0'], varx['Ca_output01']]
@@ -572,7 +572,7 @@ class CommonFFT2DOp(CommonFFTOp):
 
         inputs = [varx['Ga_output0']]
         node = ctx.make_node('Cast', inputs=inputs, attr=dict(
-            to=onnx_pb.TensorProto.FLOAT), name=utils.make_name('Ca_Cast2'))
+            to=onnx_dtype), name=utils.make_name('Ca_Cast2'))
         varx['Ca_output02'] = node.output[0]
 
         inputs = [varx['Mu_C01'], varx['Ca_output02']]
@@ -631,7 +631,7 @@ class CommonFFT2DOp(CommonFFTOp):
 
         inputs = [varx['Ad_C02']]
         node = ctx.make_node('Cast', inputs=inputs, attr=dict(
-            to=onnx_pb.TensorProto.FLOAT), name=utils.make_name('Ca_Cast3'))
+            to=onnx_dtype), name=utils.make_name('Ca_Cast3'))
         varx['Ca_output04'] = node.output[0]
 
         node = GraphBuilder(ctx).make_unsqueeze({'data': varx['Ga_output03'], 'axes': [0]}, return_node=True)
@@ -647,7 +647,7 @@ class CommonFFT2DOp(CommonFFTOp):
 
         inputs = [varx['Re_reshaped03']]
         node = ctx.make_node('Cast', inputs=inputs, attr=dict(
-            to=onnx_pb.TensorProto.FLOAT), name=utils.make_name('Ca_Cast4'))
+            to=onnx_dtype), name=utils.make_name('Ca_Cast4'))
         varx['Ca_output03'] = node.output[0]
 
         inputs = [varx['Ca_output03'], varx['Ca_output04']]
@@ -656,7 +656,7 @@ class CommonFFT2DOp(CommonFFTOp):
 
         inputs = [varx['Ga_output03']]
         node = ctx.make_node('Cast', inputs=inputs, attr=dict(
-            to=onnx_pb.TensorProto.FLOAT), name=utils.make_name('Ca_Cast5'))
+            to=onnx_dtype), name=utils.make_name('Ca_Cast5'))
         varx['Ca_output05'] = node.output[0]
 
         inputs = [varx['Mu_C04'], varx['Ca_output05']]
-- 
2.43.0


From a64d837230226028de36a27b0611e5a84dc6f4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:41 +0000
Subject: [PATCH 064/114] fix: RFFT2D with one point in the last axis dropped
 the imaginary part

---
 tf2onnx/onnx_opset/signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/signal.py b/tf2onnx/onnx_opset/signal.py
index 6fcf5f6..f808688 100644
--- a/tf2onnx/onnx_opset/signal.py
+++ b/tf2onnx/onnx_opset/signal.py
@@ -760,7 +760,7 @@ class CommonFFT2DOp(CommonFFTOp):
         node = ctx.make_node('Reshape', inputs=inputs, name=utils.make_name('Re_Reshape10'))
         varx['Re_reshaped010'] = node.output[0]
 
-        inputs = [varx['Ma_Y01'], varx['Cu_CumSumcst'], varx['Re_reshaped010'], varx['Co_Concatcst']]
+        inputs = [varx['Ma_Y01'], varx['Cu_CumSumcst'], varx['Re_reshaped010'], varx['Sl_Slicecst1']]
         node = ctx.make_node('Slice', inputs=inputs, name=utils.make_name('Sl_Slice5'))
         varx['Sl_output03'] = node.output[0]
 
-- 
2.43.0


From fa7dd1d970f12cf148496ebd3474174f0de6b5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:41 +0000
Subject: [PATCH 065/114] fix: RFFT of a vector gave a model that transposes a
 vector with a matrix permutation

---
 tf2onnx/onnx_opset/signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/signal.py b/tf2onnx/onnx_opset/signal.py
index f808688..3ef846d 100644
--- a/tf2onnx/onnx_opset/signal.py
+++ b/tf2onnx/onnx_opset/signal.py
@@ -124,7 +124,7 @@ class CommonFFTOp:
             onnx_dtype = ctx.get_dtype(input_name)
             utils.make_sure(onnx_dtype in CommonFFTOp.supported_dtypes, "Unsupported input type.")
             shape = ctx.get_shape(node.input[0])
-            if shape is None or len(shape) > 2:
+            if shape is None or len(shape) != 2:
                 if shape is None or min(shape) <= 0:
                     two = ctx.make_const(name=utils.make_name('FFT_two'),
                                          np_val=np.array([2], dtype=np.int64))
-- 
2.43.0


From 899a422b6006ae1a838e4a5548051cfc406ea5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:42 +0000
Subject: [PATCH 066/114] fix: outputs_as_nchw transposed the value for every
 other reader as well

---
 tf2onnx/tfonnx.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/tfonnx.py b/tf2onnx/tfonnx.py
index 6e4d5ee..16c2f41 100644
--- a/tf2onnx/tfonnx.py
+++ b/tf2onnx/tfonnx.py
@@ -342,9 +342,9 @@ def transpose_outputs(ctx, outputs_as_nchw):
                     continue
                 # insert transpose
                 op_name = utils.make_name(node.name)
-                transpose = ctx.insert_new_node_on_output("Transpose", node.input[0], name=op_name)
+                transpose = ctx.insert_new_node_on_input(node, "Transpose", node.input[0], name=op_name)
                 transpose.set_attr("perm", constants.NHWC_TO_NCHW)
-                ctx.copy_shape(node.output[0], transpose.output[0])
+                ctx.copy_dtype(output_name, transpose.output[0])
                 ctx.set_shape(transpose.output[0], np.array(shape)[constants.NHWC_TO_NCHW])
                 ctx.set_shape(output_name, np.array(shape)[constants.NHWC_TO_NCHW])
                 ops.append(transpose)
-- 
2.43.0


From a3994c05d6174e57ea65dc6068deea8c3933ead1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:50 +0000
Subject: [PATCH 067/114] fix: Atan2 recorded the shape of its first input for
 the broadcast result

---
 tf2onnx/onnx_opset/math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/math.py b/tf2onnx/onnx_opset/math.py
index 8cf44bd..be6a56a 100644
--- a/tf2onnx/onnx_opset/math.py
+++ b/tf2onnx/onnx_opset/math.py
@@ -961,7 +961,7 @@ class Atan2Op:
 
         onnx_dtype = ctx.get_dtype(node.input[0])
         utils.make_sure(onnx_dtype in supported_dtypes, "Unsupported input type.")
-        shape = ctx.get_shape(node.input[0])
+        shape = ctx.get_shape(node.output[0])
         np_dtype = utils.map_onnx_to_numpy_type(onnx_dtype)
 
         # sign part
-- 
2.43.0


From 3afd9669dc71de07d20c272a2ad9ab4fc381ffdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:50 +0000
Subject: [PATCH 068/114] fix: Pad of types the runtime cannot pad recorded the
 wrong type for the padded float

---
 tf2onnx/onnx_opset/nn.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/onnx_opset/nn.py b/tf2onnx/onnx_opset/nn.py
index 8dd1b1d..fd5b8fe 100644
--- a/tf2onnx/onnx_opset/nn.py
+++ b/tf2onnx/onnx_opset/nn.py
@@ -922,7 +922,8 @@ class Pad:
                                                            name=utils.make_name(node.name) + "_castback",
                                                            to=origin_dtype)
             ctx.set_dtype(cast_back_node.output[0], origin_dtype)
-            ctx.copy_shape(node.name, cast_back_node.output[0])
+            ctx.copy_shape(node.output[0], cast_back_node.output[0])
+            ctx.set_dtype(node.output[0], onnx_pb.TensorProto.FLOAT)
 
         if mode == "symmetric":
             cls.convert_symmetric_pads(ctx, node)
@@ -959,7 +960,8 @@ class Pad:
                                                            name=utils.make_name(node.name) + "_castback",
                                                            to=origin_dtype)
             ctx.set_dtype(cast_back_node.output[0], origin_dtype)
-            ctx.copy_shape(node.name, cast_back_node.output[0])
+            ctx.copy_shape(node.output[0], cast_back_node.output[0])
+            ctx.set_dtype(node.output[0], TensorProto.FLOAT)
 
         if mode == "symmetric":
             cls.convert_symmetric_pads(ctx, node)
-- 
2.43.0


From e6c7e41a31fc469075ddcc0f1e737f82d0d9eee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:59 +0000
Subject: [PATCH 069/114] fix: MatrixSetDiagV3 recorded the type of the input
 for its integer mask

---
 tf2onnx/onnx_opset/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index 1c52b5f..0553ebc 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -3995,7 +3995,7 @@ class MatrixSetDiagV3:
         # make matrix of bool
         ctx.set_dtype(ones_diag.output[0], TensorProto.INT64)
         ones_matrix = ctx.make_node("MatrixDiagV3", [ones_diag.output[0], k, row, col, zeo], attr,
-                                    shapes=[ctx.get_shape(x)], dtypes=[ctx.get_dtype(x)])
+                                    shapes=[ctx.get_shape(x)], dtypes=[TensorProto.INT64])
         MatrixDiag.version_12(ctx, ones_matrix)
         ones_bool = mknode("Equal", [ones_matrix.output[0], one])
 
-- 
2.43.0


From 5afd349bf505c278c786734a2ff4e800d88da8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:59 +0000
Subject: [PATCH 070/114] fix: padded NonMaxSuppressionV5 recorded the padded
 shape for the unpadded scores

---
 tf2onnx/onnx_opset/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index 0553ebc..ad5ce4e 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -1926,7 +1926,7 @@ class NonMaxSuppression:
             if needs_padding:
                 # add selected_scores with padding
                 gather_op = ctx.make_node("Gather", inputs=[input_score.input[0], original_nms_output.output[0]],
-                                          dtypes=dtypes[1], shapes=shapes[1])
+                                          dtypes=dtypes[1], shapes=[[-1]])
                 if ctx.opset <= 10:  # Dynamic padding not supported before opset 11
                     zero_tensor = helper.make_tensor("value", dtypes[1], dims=[1], vals=[0])
                     padding = ctx.make_node("ConstantOfShape", inputs=[pad_amt.output[0]], attr={"value": zero_tensor})
-- 
2.43.0


From 69646dcc521b6d1581c1e92220998bd5ef6fe6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:59 +0000
Subject: [PATCH 071/114] fix: Unpack into scalars recorded scalars for the
 outputs of the split

---
 tf2onnx/onnx_opset/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index ad5ce4e..1111efa 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -1335,7 +1335,7 @@ class Unpack:
         # split node is 1 rank higher than squeeze nodes
         for out in node.output:
             output_shape = ctx.get_shape(out)
-            if output_shape:
+            if output_shape is not None:
                 split_shape = output_shape[:axis] + [1] + output_shape[axis:]
                 ctx.set_shape(out, split_shape)
 
-- 
2.43.0


From 5bd9e0d0281e5b7c78d26c7fb8f50b01d5bbfa7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:59 +0000
Subject: [PATCH 072/114] fix: TopK cast to float recorded the type before the
 cast

---
 tf2onnx/onnx_opset/tensor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index 1111efa..da64a37 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -1231,7 +1231,10 @@ class TopKV2:
         if dtypes[0] != onnx_pb.TensorProto.FLOAT:
             # opset-10 supports types other than float but onnxruntime does not
             ctx.insert_new_node_on_input(node, "Cast", node.input[0], input_index=0, to=onnx_pb.TensorProto.FLOAT)
-            ctx.insert_new_node_on_output("Cast", node.output[0], to=dtypes[0])
+            cast_back = ctx.insert_new_node_on_output("Cast", node.output[0], to=dtypes[0])
+            ctx.set_dtype(cast_back.output[0], dtypes[0])
+            ctx.copy_shape(node.output[0], cast_back.output[0])
+            ctx.set_dtype(node.output[0], onnx_pb.TensorProto.FLOAT)
         # cast the index output to int32
         cast_out = ctx.insert_new_node_on_output("Cast", node.output[1], name=utils.make_name(node.name), to=dtypes[1])
         ctx.set_dtype(cast_out.output[0], dtypes[1])
-- 
2.43.0


From 5350cb1b94e3e910724b92b22337ae072808455c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:59 +0000
Subject: [PATCH 073/114] fix: TopK below opset 10 tried to cast the input for
 every reader

---
 tf2onnx/onnx_opset/tensor.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index da64a37..9027153 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -1211,8 +1211,11 @@ class TopKV2:
 
         if dtypes[0] != onnx_pb.TensorProto.FLOAT:
             # opset-1 only supports float dtypes
-            ctx.insert_new_node_on_output("Cast", new_topk_node.input[0], to=onnx_pb.TensorProto.FLOAT)
-            ctx.insert_new_node_on_output("Cast", new_topk_node.output[0], to=dtypes[0])
+            ctx.insert_new_node_on_input(new_topk_node, "Cast", new_topk_node.input[0], to=onnx_pb.TensorProto.FLOAT)
+            cast_back = ctx.insert_new_node_on_output("Cast", new_topk_node.output[0], to=dtypes[0])
+            ctx.set_dtype(cast_back.output[0], dtypes[0])
+            ctx.copy_shape(new_topk_node.output[0], cast_back.output[0])
+            ctx.set_dtype(new_topk_node.output[0], onnx_pb.TensorProto.FLOAT)
         new_cast_name = utils.make_name(topk_node_name)
         ctx.make_node("Cast", [new_topk_node.output[1]], outputs=[topk_output2],
                       name=new_cast_name, attr={"to": onnx_pb.TensorProto.INT32},
-- 
2.43.0


From 591a3c4eb6dcbeeb1ff7fc90374cb02994d71095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:59 +0000
Subject: [PATCH 074/114] fix: StridedSlice recorded the squeezed shape for the
 slice

---
 tf2onnx/onnx_opset/tensor.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index 9027153..d3101bd 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -1159,6 +1159,11 @@ class StridedSlice:
             input_dtype = ctx.get_dtype(node.output[0])
             ctx.set_dtype(squeeze_node.output[0], input_dtype)
             ctx.copy_shape(node.output[0], squeeze_node.output[0])
+            slice_shape = ctx.get_shape(node.output[0])
+            if slice_shape is not None:
+                for axis in needs_squeeze:
+                    slice_shape = slice_shape[:axis] + [1] + slice_shape[axis:]
+                ctx.set_shape(node.output[0], slice_shape)
 
     @classmethod
     def version_10(cls, ctx, node, **kwargs):
-- 
2.43.0


From de46a0a0a1d49e6c6cc638f3d071cbceb85fa63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:54 +0000
Subject: [PATCH 075/114] fix: tflite fully connected without keep_num_dims
 lost its bias

---
 tf2onnx/tflite_handlers/tfl_math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/tflite_handlers/tfl_math.py b/tf2onnx/tflite_handlers/tfl_math.py
index 35b377c..58aef7c 100644
--- a/tf2onnx/tflite_handlers/tfl_math.py
+++ b/tf2onnx/tflite_handlers/tfl_math.py
@@ -212,7 +212,7 @@ class TflFullyConnectedOp:
             shape_const = ctx.make_const(utils.make_name("reshape_shape"), np.array([-1, weights_shape], np.int64))
             reshape_node = ctx.make_node("Reshape", [node.input[0], shape_const.output[0]])
             reshape_node.skip_conversion = True
-            ctx.replace_inputs(node, [reshape_node.output[0], node.input[1]])
+            ctx.replace_inputs(node, [reshape_node.output[0]] + node.input[1:])
 
         transpose_node = ctx.insert_new_node_on_input(node, "Transpose", node.input[1],
                                                       name=None, input_index=1, perm=[1, 0])
-- 
2.43.0


From c0833d5b0f31a83cee2e7f36fff52ba8ec9ad54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:55 +0000
Subject: [PATCH 076/114] fix: tflite fully connected on a rank 2 input with
 rows of another length was not reshaped

---
 tf2onnx/tflite_handlers/tfl_math.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/tflite_handlers/tfl_math.py b/tf2onnx/tflite_handlers/tfl_math.py
index 58aef7c..7bcfa97 100644
--- a/tf2onnx/tflite_handlers/tfl_math.py
+++ b/tf2onnx/tflite_handlers/tfl_math.py
@@ -204,7 +204,10 @@ class TflFullyConnectedOp:
         if node.attr['asymmetric_quantize_inputs'].i == 1:
             dynamic_quantize_inputs(ctx, node)
 
-        if node.attr['keep_num_dims'].i == 0 and ctx.get_rank(node.input[0]) != 2:
+        inp_shape = ctx.get_shape(node.input[0])
+        w_shape = ctx.get_shape(node.input[1])
+        same_depth = not inp_shape or not w_shape or w_shape[-1] in [-1, inp_shape[-1]]
+        if node.attr['keep_num_dims'].i == 0 and (ctx.get_rank(node.input[0]) != 2 or not same_depth):
             # When a fullyconnected node has keep_num_dims=0 and input[0] rank > 2, the extra dims must be compressed
             utils.make_sure(ctx.get_rank(node.input[1]) == 2, "weights for FullyConnected must have rank 2")
             weights_shape = ctx.get_shape(node.input[1])[1]
-- 
2.43.0


From d7166da027d6196d427b1db572914f454d9fe317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:55 +0000
Subject: [PATCH 077/114] fix: tflite softmax multiplied its result by beta,
 not its input

---
 tf2onnx/tflite_handlers/tfl_math.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/tflite_handlers/tfl_math.py b/tf2onnx/tflite_handlers/tfl_math.py
index 7bcfa97..07142df 100644
--- a/tf2onnx/tflite_handlers/tfl_math.py
+++ b/tf2onnx/tflite_handlers/tfl_math.py
@@ -242,8 +242,10 @@ class TFlSoftmaxOp:
         beta = node.get_attr_value("beta")
         if beta != 1:
             beta_node = ctx.make_const(utils.make_name("beta"), np.array(beta, dtype=np.float32))
-            mul_node = ctx.insert_new_node_on_output("Mul", node.output[0], name=utils.make_name(node.name))
-            ctx.replace_inputs(mul_node, [node.output[0], beta_node.output[0]])
+            mul_node = ctx.make_node("Mul", [node.input[0], beta_node.output[0]], op_name_scope=node.name,
+                                     shapes=[ctx.get_shape(node.input[0])], dtypes=[ctx.get_dtype(node.input[0])])
+            mul_node.skip_conversion = True
+            ctx.replace_input(node, node.input[0], mul_node.output[0], 0)
 
 @tfl_op(["TFL_PRELU"], onnx_op="PRelu")
 class TflPreluOp:
-- 
2.43.0


From 02f38de0db754ea01244e866935e130a90ec41f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:55 +0000
Subject: [PATCH 078/114] fix: tflite per-axis quantize used the first scale
 for every slice

---
 tf2onnx/tflite_handlers/tfl_math.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/tflite_handlers/tfl_math.py b/tf2onnx/tflite_handlers/tfl_math.py
index 07142df..b6e72af 100644
--- a/tf2onnx/tflite_handlers/tfl_math.py
+++ b/tf2onnx/tflite_handlers/tfl_math.py
@@ -105,8 +105,11 @@ class TflQuantizeOp:
         if len(scale) > 1 or len(zero_point) > 1:
             utils.make_sure(ctx.opset >= 13, "Opset 13 is required for per-axis quantization for node %s", node.name)
             node.set_attr("axis", axis)
-        scale_node = ctx.make_const(utils.make_name("scale"), np.array(scale[0], dtype=np.float32))
-        zero_point_node = ctx.make_const(utils.make_name("zero_point"), np.array(zero_point[0], dtype=np_q_type))
+            scale_node = ctx.make_const(utils.make_name("scale"), np.array(scale, dtype=np.float32))
+            zero_point_node = ctx.make_const(utils.make_name("zero_point"), np.array(zero_point, dtype=np_q_type))
+        else:
+            scale_node = ctx.make_const(utils.make_name("scale"), np.array(scale[0], dtype=np.float32))
+            zero_point_node = ctx.make_const(utils.make_name("zero_point"), np.array(zero_point[0], dtype=np_q_type))
         ctx.replace_inputs(node, [node.input[0], scale_node.output[0], zero_point_node.output[0]])
         del node.attr["scale"]
         del node.attr["zero_point"]
-- 
2.43.0


From 35149b4a75fb7dc5d5f114d325c9fde583812281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:55 +0000
Subject: [PATCH 079/114] fix: right shift of negative int8 values shifted
 zeros in

---
 tf2onnx/onnx_opset/math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/math.py b/tf2onnx/onnx_opset/math.py
index be6a56a..8f279b9 100644
--- a/tf2onnx/onnx_opset/math.py
+++ b/tf2onnx/onnx_opset/math.py
@@ -831,7 +831,7 @@ class BitShift:
         direction = dir_map[node.type]
         supported = [onnx_pb.TensorProto.UINT8, onnx_pb.TensorProto.UINT16,
                      onnx_pb.TensorProto.UINT32, onnx_pb.TensorProto.UINT64]
-        type_map = {onnx_pb.TensorProto.INT8: onnx_pb.TensorProto.UINT8,
+        type_map = {onnx_pb.TensorProto.INT8: onnx_pb.TensorProto.UINT32,
                     onnx_pb.TensorProto.INT16: onnx_pb.TensorProto.UINT32,
                     onnx_pb.TensorProto.INT32: onnx_pb.TensorProto.UINT64}
         shapes = node.output_shapes
-- 
2.43.0


From 6fc83b0dcf3989d12c3ef35a90776a719d495403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:55 +0000
Subject: [PATCH 080/114] fix: SparseToDense with int32 indices gave an invalid
 model

---
 tf2onnx/onnx_opset/tensor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index d3101bd..34f178b 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -2510,6 +2510,10 @@ class SparseToDense:
         idx_is_scalar = idx_shape is not None and idx_shape[0] == 1
         utils.make_sure(not val_is_scalar or idx_is_scalar, "SparseToDense not implemented yet for scalar values")
 
+        if ctx.get_dtype(out_shape) != TensorProto.INT64:
+            out_shape = ctx.make_node("Cast", [out_shape], attr={'to': TensorProto.INT64}).output[0]
+        if ctx.get_dtype(sparse_indices) != TensorProto.INT64:
+            sparse_indices = ctx.make_node("Cast", [sparse_indices], attr={'to': TensorProto.INT64}).output[0]
         expand_node = ctx.make_node("Expand", [default_val, out_shape])
         node.type = "ScatterND"
         ctx.replace_inputs(node, [expand_node.output[0], sparse_indices, sparse_vals])
-- 
2.43.0


From ddf69f44477da74b1697ed4975c90be771847554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:55 +0000
Subject: [PATCH 081/114] fix: tflite NonMaxSuppressionV5 outputs were not
 padded

---
 tf2onnx/tflite_handlers/tfl_direct.py | 1 -
 tf2onnx/tflite_handlers/tfl_nn.py     | 1 +
 2 files changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/tflite_handlers/tfl_direct.py b/tf2onnx/tflite_handlers/tfl_direct.py
index aea11aa..e68c348 100644
--- a/tf2onnx/tflite_handlers/tfl_direct.py
+++ b/tf2onnx/tflite_handlers/tfl_direct.py
@@ -54,7 +54,6 @@ from tf2onnx.handler import tfl_op
 @tfl_op("TFL_MIRROR_PAD", tf_op="MirrorPad")
 @tfl_op("TFL_MULTINOMIAL", tf_op="Multinomial")
 @tfl_op("TFL_NEG", tf_op="Neg")
-@tfl_op("TFL_NON_MAX_SUPPRESSION_V5", tf_op="NonMaxSuppressionV5")
 @tfl_op("TFL_NOT_EQUAL", tf_op="NotEqual")
 @tfl_op("TFL_ONE_HOT", tf_op="OneHot")
 @tfl_op("TFL_PAD", tf_op="Pad")
diff --git a/tf2onnx/tflite_handlers/tfl_nn.py b/tf2onnx/tflite_handlers/tfl_nn.py
index 0e60566..ce941db 100644
--- a/tf2onnx/tflite_handlers/tfl_nn.py
+++ b/tf2onnx/tflite_handlers/tfl_nn.py
@@ -149,6 +149,7 @@ class TFlSpaceToDepthOp:
         node.set_attr("data_format", "NHWC")
 
 @tfl_op(["TFL_NON_MAX_SUPPRESSION_V4"], tf_op="NonMaxSuppressionV4")
+@tfl_op(["TFL_NON_MAX_SUPPRESSION_V5"], tf_op="NonMaxSuppressionV5")
 class TflNonMaxSuppressionV4Op:
     @classmethod
     def to_tf(cls, ctx, node, **kwargs):
-- 
2.43.0


From 7caa4825f5246d42547bc2690fc562fb89624596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:55 +0000
Subject: [PATCH 082/114] fix: tflite options with a list left out could not be
 read

---
 tf2onnx/tflite_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/tflite_utils.py b/tf2onnx/tflite_utils.py
index 1e418b0..9ec9359 100644
--- a/tf2onnx/tflite_utils.py
+++ b/tf2onnx/tflite_utils.py
@@ -500,7 +500,9 @@ def parse_tflite_graph(tflite_g, opcodes_map, model, input_prefix='', tensor_sha
                     attr_names.remove(a)
             for a in attr_names:
                 if a.endswith('AsNumpy'):
-                    value = getattr(options, a)().tolist()
+                    value = getattr(options, a)()
+                    # flatbuffers gives 0 for a list that was left out
+                    value = value.tolist() if hasattr(value, 'tolist') else []
                     a = a[:-len('AsNumpy')]
                 else:
                     # For enums we use a string with the value name, not enum index
-- 
2.43.0


From 2bf24329dbeedb0b7b746fb05d36a35f212e27e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:55 +0000
Subject: [PATCH 083/114] fix: tflite outputs of Range and Unique of unknown
 length were declared scalar

---
 tf2onnx/tflite_utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tf2onnx/tflite_utils.py b/tf2onnx/tflite_utils.py
index 9ec9359..8776135 100644
--- a/tf2onnx/tflite_utils.py
+++ b/tf2onnx/tflite_utils.py
@@ -529,6 +529,11 @@ def parse_tflite_graph(tflite_g, opcodes_map, model, input_prefix='', tensor_sha
                     for out in output_names:
                         logger.warning("Replacing scalar output shape of %s with unknown shape", out)
                         output_shapes[out] = None
+        if optype in ["TFL_RANGE", "TFL_UNIQUE"]:
+            # outputs of these ops are never scalars
+            for out in output_names:
+                if output_shapes[out] == []:
+                    output_shapes[out] = [-1]
         if has_prequantized_output:
             output_names = [get_prequant(out) for out in output_names]
         onnx_node = utils.make_onnx_node_with_attr(optype, input_names, output_names, name=output_names[0], **attr)
-- 
2.43.0


From 0d83b2e5adbc7f1ccb4442b3e773d391541eb8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:55 +0000
Subject: [PATCH 084/114] fix: tflite reshape to a scalar by attribute failed

---
 tf2onnx/tflite_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/tflite_utils.py b/tf2onnx/tflite_utils.py
index 8776135..2a4e9ea 100644
--- a/tf2onnx/tflite_utils.py
+++ b/tf2onnx/tflite_utils.py
@@ -336,7 +336,7 @@ def op_has_scalar_output(input_shapes, optype, attr):
         num_axes = 1 if input_shapes[1] == [] else input_shapes[1][0]
         return not keep_dims and inp_rank == num_axes
     if optype == "TFL_RESHAPE":
-        return input_shapes[1] == [0]
+        return len(input_shapes) > 1 and input_shapes[1] == [0]
     if optype == "Size":
         # Op from TF
         return True
-- 
2.43.0


From d4db2be781dcbf73f6616813012f0ed9646dbf17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:12 +0000
Subject: [PATCH 085/114] fix: Select of float values let NaN and Inf of the
 branch that is not taken through

---
 tf2onnx/onnx_opset/controlflow.py | 28 +++-------------------------
 1 file changed, 3 insertions(+), 25 deletions(-)

diff --git a/tf2onnx/onnx_opset/controlflow.py b/tf2onnx/onnx_opset/controlflow.py
index 5247df4..9df1e78 100644
--- a/tf2onnx/onnx_opset/controlflow.py
+++ b/tf2onnx/onnx_opset/controlflow.py
@@ -190,31 +190,9 @@ class Select:
         # NOTE: condition can be 1-dimension in tensorflow, while in onnx,
         # it should be broadcastable with other two inputs
 
-        # We can't use the mul/add trick if a NaN is involved. handles_nan is added earlier in the converter.
-        handles_nan = node.get_attr_value("handles_nan", False)
-        if ctx.get_dtype(node.output[0]) in [TensorProto.FLOAT, TensorProto.DOUBLE]:
-            cond_node = node.inputs[0]
-            if cond_node.type in {"IsNaN", "IsInf"}:
-                # We can't use the mul trick if Inf is involved since Inf * 0 = NaN as per IEEE 754.
-                handles_nan = True
-            if cond_node.type == "NotEqual" and cond_node.input[0] == cond_node.input[1]:
-                handles_nan = True
-            if cond_node.type == "Not" and cond_node.inputs[0].type == "Equal":
-                eq_node = cond_node.inputs[0]
-                if eq_node.input[0] == eq_node.input[1]:
-                    handles_nan = True
-            for inp in node.inputs[1:]:
-                if handles_nan:
-                    break
-                if inp.is_const() and (np.any(np.isnan(inp.get_tensor_value(as_list=False))) or \
-                                       np.any(np.isinf(inp.get_tensor_value(as_list=False)))):
-                    handles_nan = True
-                if inp.type == "Mul":
-                    inp0 = inp.inputs[0].is_const() and np.any(np.isinf(inp.inputs[0].get_tensor_value(as_list=False)))
-                    inp1 = inp.inputs[1].is_const() and np.any(np.isinf(inp.inputs[1].get_tensor_value(as_list=False)))
-                    handles_nan = inp0 or inp1
-
-        if ctx.get_dtype(node.output[0]) != TensorProto.STRING and not handles_nan:
+        # We can't use the mul/add trick on floats: NaN and Inf in the branch that isn't taken would get into the result.
+        if ctx.get_dtype(node.output[0]) not in [TensorProto.FLOAT16, TensorProto.FLOAT, TensorProto.DOUBLE,
+                                                TensorProto.STRING]:
             # Due to bad ORT implementation, Mul/Add ops are faster than Where op
             cls.version_7(ctx, node, **kwargs)
             return
-- 
2.43.0


From b17d1caee56f6b7a3078d0f79280cdece93cc820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:12 +0000
Subject: [PATCH 086/114] fix: rewriting of nested leaky relus failed, and
 vector or integer slopes were rewritten

---
 tf2onnx/rewriter/leakyrelu_rewriter.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/tf2onnx/rewriter/leakyrelu_rewriter.py b/tf2onnx/rewriter/leakyrelu_rewriter.py
index ec42294..3c5cc7f 100644
--- a/tf2onnx/rewriter/leakyrelu_rewriter.py
+++ b/tf2onnx/rewriter/leakyrelu_rewriter.py
@@ -5,6 +5,7 @@
 tf2onnx.rewriter - rewrite tensorflow subgraph to onnx leakyrelu op
 """
 
+from onnx import TensorProto
 from tf2onnx.graph_matcher import GraphMatcher, OpTypePattern
 
 # pylint: disable=missing-docstring
@@ -29,11 +30,22 @@ def rewrite_leakyrelu(g, ops):
         max_node = match.get_op('max')
         mul_node = match.get_op("mul")
 
-        max_input_edge_name = match.get_tensor('max_input')
-        mul_input_edge_name = match.get_tensor('mul_input')
-        if max_input_edge_name == mul_input_edge_name:
-            alpha = match.get_op("alpha").get_tensor_value()
-            if alpha >= 1:
+        alpha_node = match.get_op("alpha")
+
+        # the edges may have been replaced since the match if an earlier match was rewritten
+        max_inputs = [inp for inp in max_node.input if inp != mul_node.output[0]]
+        mul_inputs = [inp for inp in mul_node.input if inp != alpha_node.output[0]]
+        if len(max_inputs) != 1 or len(mul_inputs) != 1:
+            continue
+        max_input_edge_name = max_inputs[0]
+        if max_input_edge_name == mul_inputs[0]:
+            if g.get_dtype(max_input_edge_name) not in [TensorProto.FLOAT16, TensorProto.FLOAT, TensorProto.DOUBLE]:
+                continue
+            alpha = alpha_node.get_tensor_value(as_list=False)
+            if alpha.shape != ():
+                continue
+            alpha = alpha.item()
+            if not alpha < 1:
                 continue
             leakyrelu = g.make_node("LeakyRelu", inputs=[max_input_edge_name], attr={"alpha": alpha},
                                     shapes=[g.get_shape(max_node.output[0])], dtypes=[g.get_dtype(max_node.output[0])])
-- 
2.43.0


From e8dea218591a8611eb02b5aa63536619143ad4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:50 +0000
Subject: [PATCH 087/114] fix: TF2ONNX_CATCH_ERRORS=TRUE was read as FALSE

---
 tf2onnx/convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/convert.py b/tf2onnx/convert.py
index e27a7ac..17522f8 100644
--- a/tf2onnx/convert.py
+++ b/tf2onnx/convert.py
@@ -194,7 +194,7 @@ def _convert_common(frozen_graph, name="unknown", large_model=False, output_path
         g = process_tf_graph(tf_graph, const_node_values=const_node_values,
                              custom_op_handlers=custom_op_handlers, **kwargs)
         if constants.ENV_TF2ONNX_CATCH_ERRORS in os.environ:
-            catch_errors = constants.ENV_TF2ONNX_CATCH_ERRORS.upper() == "TRUE"
+            catch_errors = os.environ[constants.ENV_TF2ONNX_CATCH_ERRORS].upper() == "TRUE"
         else:
             catch_errors = not large_model
         onnx_graph = optimizer.optimize_graph(g, catch_errors, optimizers=optimizers)
-- 
2.43.0


From 59781359b2f01a92f308fa858761dad2eecfd924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:18 +0000
Subject: [PATCH 088/114] fix: large string constants were stored externally
 without their data

---
 tf2onnx/graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/graph.py b/tf2onnx/graph.py
index 9194651..4d9581e 100644
--- a/tf2onnx/graph.py
+++ b/tf2onnx/graph.py
@@ -102,7 +102,8 @@ class Node(object):
             return external_tensor_storage.node_to_modified_value_attr[self]
         if external_tensor_storage is None or a.type != AttributeProto.TENSOR:
             return a
-        if np.product(a.t.dims) > external_tensor_storage.external_tensor_size_threshold:
+        if a.t.HasField("raw_data") and \
+                np.product(a.t.dims) > external_tensor_storage.external_tensor_size_threshold:
             a = copy.deepcopy(a)
             tensor_name = self.name.strip() + "_" + str(external_tensor_storage.name_counter)
             for c in '~"#%&*:<>?/\\{|}':
-- 
2.43.0


From 3e25c270eae65b5c1925e57e7dd3b7d47da5fcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:38 +0000
Subject: [PATCH 089/114] fix: constants of functions got the data of large
 constants of the same name

---
 tf2onnx/tfonnx.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/tfonnx.py b/tf2onnx/tfonnx.py
index 16c2f41..c861467 100644
--- a/tf2onnx/tfonnx.py
+++ b/tf2onnx/tfonnx.py
@@ -477,10 +477,11 @@ def graphs_from_tf(tf_graph, input_names, output_names, shape_override=None, con
         f_inputs_names = [t.name for t in func.inputs]
         f_output_names = [t.name for t in func.outputs]
 
-        outputs_to_values, _ = compute_const_folding_using_tf(func, const_node_values, output_names)
+        # const_node_values has the consts of the main graph only, a const of the function can have the same name
+        outputs_to_values, _ = compute_const_folding_using_tf(func, None, output_names)
 
         onnx_nodes, _, _, output_shapes, dtypes, _ = \
-            tensorflow_to_onnx(func, shape_override, const_node_values, ignore_default, use_default)
+            tensorflow_to_onnx(func, shape_override, None, ignore_default, use_default)
 
         fg = Graph(onnx_nodes, output_shapes, dtypes, input_names=f_inputs_names, output_names=f_output_names,
                    is_subgraph=True, graph_name=func.name)
-- 
2.43.0


From 82697ece29b27c930f1dfd7de390b37598fa268e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:46 +0000
Subject: [PATCH 090/114] fix: custom_ops changed the custom_op_handlers of the
 caller

---
 tf2onnx/convert.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tf2onnx/convert.py b/tf2onnx/convert.py
index 17522f8..4526260 100644
--- a/tf2onnx/convert.py
+++ b/tf2onnx/convert.py
@@ -178,8 +178,7 @@ def _convert_common(frozen_graph, name="unknown", large_model=False, output_path
     const_node_values = None
 
     if custom_ops is not None:
-        if custom_op_handlers is None:
-            custom_op_handlers = {}
+        custom_op_handlers = dict(custom_op_handlers or {})
         custom_op_handlers.update(
             {op: (make_default_custom_op_handler(domain), []) for op, domain in custom_ops.items()})
 
-- 
2.43.0


From 5d1dd43fc92dd86b4c7b533c19c1b6ccd331b5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:19 +0000
Subject: [PATCH 091/114] fix: handlers of custom ops stayed registered after
 the conversion

---
 tf2onnx/tfonnx.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/tf2onnx/tfonnx.py b/tf2onnx/tfonnx.py
index c861467..55baa50 100644
--- a/tf2onnx/tfonnx.py
+++ b/tf2onnx/tfonnx.py
@@ -566,10 +566,6 @@ def process_parsed_graph(g, custom_op_handlers, inputs_as_nchw, outputs_as_nchw,
                 kwargs["onnx_op"] = onnx_op
                 args = args[1:]
             kwargs["args"] = args
-            new_handler = handler.tf_op(k,
-                                        domain=constants.TENSORFLOW_OPSET.domain,
-                                        kwargs=kwargs)
-            new_handler.register_compat_handler(compat_handler, 1)
             custom_opset[k] = (compat_handler, kwargs)
         ops_mapping.update(custom_opset)
 
-- 
2.43.0


From 476a18da56411672263d7a61c6c3325d52618429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:29 +0000
Subject: [PATCH 092/114] fix: operators of other domains lost their domain in
 branches and loops

---
 tf2onnx/onnx_opset/controlflow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/controlflow.py b/tf2onnx/onnx_opset/controlflow.py
index 9df1e78..6955c79 100644
--- a/tf2onnx/onnx_opset/controlflow.py
+++ b/tf2onnx/onnx_opset/controlflow.py
@@ -763,7 +763,7 @@ def prefix_graph(g, scope):
                 branches[k] = v
         new_node = g.make_node(node.type, node.input, name=node.name, output_count=len(node.output),
                                shapes=output_shapes, dtypes=output_dtypes, attr=attr,
-                               op_name_scope=scope, skip_conversion=True, branches=branches)
+                               op_name_scope=scope, skip_conversion=True, domain=node.domain, branches=branches)
         for old_output, new_output in zip(node.output, new_node.output):
             for i, oname in enumerate(g.outputs):
                 if old_output == oname:
-- 
2.43.0


From f18b88b757d4b513198f2d424c7d942be2884883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:26 +0000
Subject: [PATCH 093/114] fix: the rnn rewriters failed on converted loops in
 bodies

---
 tf2onnx/rewriter/gru_tf2_rewriter.py  | 2 +-
 tf2onnx/rewriter/lstm_tf2_rewriter.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/rewriter/gru_tf2_rewriter.py b/tf2onnx/rewriter/gru_tf2_rewriter.py
index cfe8aea..dbea597 100644
--- a/tf2onnx/rewriter/gru_tf2_rewriter.py
+++ b/tf2onnx/rewriter/gru_tf2_rewriter.py
@@ -116,7 +116,7 @@ def rewrite_gru_tf2(g, ops):
             }
 
     for op in ops:
-        if op.is_while():
+        if op.is_while() and op.get_attr("body"):
             body_graph = find_function(op.get_attr_str("body"))
             if body_graph.gru_rewriter_context is None:
                 continue
diff --git a/tf2onnx/rewriter/lstm_tf2_rewriter.py b/tf2onnx/rewriter/lstm_tf2_rewriter.py
index e35da09..8d613a7 100644
--- a/tf2onnx/rewriter/lstm_tf2_rewriter.py
+++ b/tf2onnx/rewriter/lstm_tf2_rewriter.py
@@ -217,7 +217,7 @@ def rewriter_lstm_tf2(g, ops):
             }
 
     for op in ops:
-        if op.is_while():
+        if op.is_while() and op.get_attr("body"):
             body_graph = find_function(op.get_attr_str("body"))
             if body_graph.lstm_rewriter_context is None:
                 continue
-- 
2.43.0


From 0b0b10ffe35c413969f1af11ef02f85ff5d57b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:26 +0000
Subject: [PATCH 094/114] fix: errors of rewriters in bodies of loops and
 branches were swallowed

---
 tf2onnx/tfonnx.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/tfonnx.py b/tf2onnx/tfonnx.py
index 55baa50..a9f6081 100644
--- a/tf2onnx/tfonnx.py
+++ b/tf2onnx/tfonnx.py
@@ -393,8 +393,8 @@ def run_rewriters(g, funcs, continue_on_error):
 
     if g.contained_graphs:
         for dict_val in g.contained_graphs.values():
-            for attr_name, b_g in dict_val.items():
-                run_rewriters(b_g, funcs, attr_name)
+            for b_g in dict_val.values():
+                run_rewriters(b_g, funcs, continue_on_error)
 
 
 def process_tf_graph(tf_graph, continue_on_error=False, verbose=False, target=None,
-- 
2.43.0


From 995d7b7f3aa358c2cb7cbfa8991956c8d0a02fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:00 +0000
Subject: [PATCH 095/114] fix: output_frozen_graph of large models lost the
 values of large constants

---
 tf2onnx/convert.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/convert.py b/tf2onnx/convert.py
index 4526260..f4d8e64 100644
--- a/tf2onnx/convert.py
+++ b/tf2onnx/convert.py
@@ -183,11 +183,12 @@ def _convert_common(frozen_graph, name="unknown", large_model=False, output_path
             {op: (make_default_custom_op_handler(domain), []) for op, domain in custom_ops.items()})
 
     with tf.Graph().as_default() as tf_graph:
+        if output_frozen_graph:
+            # must come before the values of large constants are taken out of the graph
+            utils.save_protobuf(output_frozen_graph, frozen_graph)
         if large_model:
             const_node_values = compress_graph_def(frozen_graph)
             external_tensor_storage = ExternalTensorStorage()
-        if output_frozen_graph:
-            utils.save_protobuf(output_frozen_graph, frozen_graph)
         if not kwargs.get("tflite_path") and not kwargs.get("tfjs_path"):
             tf.import_graph_def(frozen_graph, name='')
         g = process_tf_graph(tf_graph, const_node_values=const_node_values,
-- 
2.43.0


From d4dc6c006ab03ef3230729c5102fabb05ccc8426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:00 +0000
Subject: [PATCH 096/114] fix: thresholded relu rewriter took x < theta for x >
 theta, and failed for vectors and integers

---
 tf2onnx/rewriter/thresholded_relu_rewriter.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/rewriter/thresholded_relu_rewriter.py b/tf2onnx/rewriter/thresholded_relu_rewriter.py
index d0cfa12..7eb22ae 100644
--- a/tf2onnx/rewriter/thresholded_relu_rewriter.py
+++ b/tf2onnx/rewriter/thresholded_relu_rewriter.py
@@ -5,6 +5,8 @@
 tf2onnx.rewriter - rewrite tensorflow subgraph to onnx ThresholdedRelu op
 """
 
+from onnx import TensorProto
+
 from tf2onnx.graph_matcher import GraphMatcher, OpTypePattern
 
 # pylint: disable=missing-docstring
@@ -17,7 +19,7 @@ def rewrite_thresholded_relu(g, ops):
     pattern = \
         OpTypePattern('Mul', name='mul', inputs=[
             OpTypePattern('Cast', name='cast', inputs=[
-                OpTypePattern('Greater', name='greater', inputs=[
+                OpTypePattern('Greater', name='greater', allow_reorder=False, inputs=[
                     OpTypePattern('*', name='greater_input'),
                     OpTypePattern('Const', name='theta')
                 ])
@@ -34,7 +36,12 @@ def rewrite_thresholded_relu(g, ops):
         greater_input_edge_name = match.get_tensor('greater_input')
         mul_input_edge_name = match.get_tensor('mul_input')
         if greater_input_edge_name == mul_input_edge_name:
-            theta = match.get_op('theta').get_tensor_value()
+            if g.get_dtype(mul_input_edge_name) not in [TensorProto.FLOAT16, TensorProto.FLOAT, TensorProto.DOUBLE]:
+                continue
+            theta = match.get_op('theta').get_tensor_value(as_list=False)
+            if theta.shape != ():
+                continue
+            theta = theta.item()
             thresholded_relu = g.make_node("ThresholdedRelu", inputs=[mul_input_edge_name], attr={"alpha": theta},
                                            shapes=[g.get_shape(mul_node.output[0])],
                                            dtypes=[g.get_dtype(mul_node.output[0])])
-- 
2.43.0


From 8fb50cbae7fb11fcb42a536ed1c217a15b94e982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:00 +0000
Subject: [PATCH 097/114] fix: merging a Pad into a Conv2D dropped the explicit
 paddings of the Conv2D

---
 tf2onnx/rewriter/conv2d_with_pad_rewriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/rewriter/conv2d_with_pad_rewriter.py b/tf2onnx/rewriter/conv2d_with_pad_rewriter.py
index ca281f6..d67c1d8 100644
--- a/tf2onnx/rewriter/conv2d_with_pad_rewriter.py
+++ b/tf2onnx/rewriter/conv2d_with_pad_rewriter.py
@@ -37,7 +37,7 @@ def rewrite_conv2d_with_pad(g, ops):
         if mode not in [None, "constant"] or len(pad.input) >= 3:
             continue
         # Conv2D already has a pad
-        if conv.get_attr("padding").s.decode("utf-8") == "SAME":
+        if conv.get_attr("padding").s.decode("utf-8") != "VALID":
             continue
 
         logger.debug("merge pad [%s] into conv [%s]", pad.name, conv.name)
-- 
2.43.0


From e289cd9b615f6fa5ef5f7720acac3f295d7f4da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:00 +0000
Subject: [PATCH 098/114] fix: dropout rewriter took ratio >= random for random
 >= ratio

---
 tf2onnx/rewriter/dropout_rewriter.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/rewriter/dropout_rewriter.py b/tf2onnx/rewriter/dropout_rewriter.py
index d46ea92..f044072 100644
--- a/tf2onnx/rewriter/dropout_rewriter.py
+++ b/tf2onnx/rewriter/dropout_rewriter.py
@@ -30,7 +30,7 @@ def rewrite_dropout(g, ops):
         OpTypePattern("Mul", name="outputs", inputs=[
             OpTypePattern("Mul", name="input2"),
             OpTypePattern("Cast", inputs=[
-                OpTypePattern("GreaterEqual", inputs=[
+                OpTypePattern("GreaterEqual", allow_reorder=False, inputs=[
                     OpTypePattern("RandomUniform|RandomUniformLike"),
                     OpTypePattern("*", name="input3")
                 ])
@@ -39,7 +39,7 @@ def rewrite_dropout(g, ops):
         # pattern for tf-2.0 tf.nn.dropout()
         OpTypePattern("Mul", name="outputs", inputs=[
             OpTypePattern("Cast", inputs=[
-                OpTypePattern("GreaterEqual", inputs=[
+                OpTypePattern("GreaterEqual", allow_reorder=False, inputs=[
                     OpTypePattern("RandomUniform|RandomUniformLike"),
                     OpTypePattern("*", name="input3")
                 ])
@@ -72,6 +72,11 @@ def rewrite_dropout(g, ops):
                                "The pattern will not be replaced with an ONNX dropout node.", outputs.name)
                 continue
 
+            if not 0 <= ratio < 1:
+                logger.warning("Dropout pattern rooted at %s has the invalid ratio %f and cannot be replaced.",
+                               outputs.name, ratio)
+                continue
+
             #The scaling constant should be 1/(1-ratio), otherwise this isn't truly a dropout node
             if not np.allclose([1], [scaling_constant * (1 - ratio)]):
                 logger.warning("Scaling constant %f for dropout pattern rooted at %s is inconsistent with dropout "
-- 
2.43.0


From c97f732c32982e37004a58dc87a35a2849395a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:46 +0000
Subject: [PATCH 099/114] fix: safe_remove_nodes removed nodes whose consumers
 it kept

---
 tf2onnx/graph.py | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/tf2onnx/graph.py b/tf2onnx/graph.py
index 4d9581e..a81a414 100644
--- a/tf2onnx/graph.py
+++ b/tf2onnx/graph.py
@@ -1604,26 +1604,21 @@ class Graph(object):
 
     def safe_to_remove_nodes(self, to_delete):
         """ List of nodes that safe to delete (i.e. outputs not consumed by other nodes.)"""
-        safe_to_remove = []
-        delete_set = set(to_delete)
-        for n in delete_set:
-            out_consumers = set()
-            for out in n.output:
-                out_consumers |= set(self.find_output_consumers(out))
-            if out_consumers.issubset(delete_set):
-                safe_to_remove.append(n)
+        safe_to_remove = list(dict.fromkeys(to_delete))
+        changed = True
+        while changed:
+            # a node must stay if one of its consumers stays
+            delete_set = set(safe_to_remove)
+            safe_to_remove = [n for n in safe_to_remove if
+                              all(c in delete_set for out in n.output for c in self.find_output_consumers(out))]
+            changed = len(safe_to_remove) < len(delete_set)
         return safe_to_remove
 
     # TODO(tomwildenhain): Remove this function
     def safe_remove_nodes(self, to_delete):
         """Delete nodes in `to_delete` without third-party node consuming it."""
-        delete_set = set(to_delete)
-        for n in delete_set:
-            out_consumers = set()
-            for out in n.output:
-                out_consumers |= set(self.find_output_consumers(out))
-            if out_consumers.issubset(delete_set):
-                self.remove_node(n.name)
+        for n in self.safe_to_remove_nodes(to_delete):
+            self.remove_node(n.name)
 
     def is_safe_to_remove_nodes(self, to_delete, outputs_to_ignore=None):
         """Returns true if the outputs of all the nodes in to_delete have no third-party nodes consuming them."""
-- 
2.43.0


From eb27d0eed61377e6c279fa33eecb8dad3f436535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:46 +0000
Subject: [PATCH 100/114] fix: random rewriters drew twice what is used twice,
 and failed for ranges that are vectors or reversed

---
 tf2onnx/rewriter/random_normal_rewriter.py |  8 ++++++++
 tf2onnx/rewriter/random_uniform.py         | 15 +++++++++++++++
 2 files changed, 23 insertions(+)

diff --git a/tf2onnx/rewriter/random_normal_rewriter.py b/tf2onnx/rewriter/random_normal_rewriter.py
index 553ae94..fe4732d 100644
--- a/tf2onnx/rewriter/random_normal_rewriter.py
+++ b/tf2onnx/rewriter/random_normal_rewriter.py
@@ -41,10 +41,18 @@ def rewrite_random_normal(g, ops):
                     break
             if is_output:
                 continue
+            # nothing else may use the number drawn
+            nodes = [match.get_op('input1'), input2, output]
+            if not g.is_safe_to_remove_nodes(nodes, [output.output[0]]):
+                continue
             if output.type == 'Add' and input2.type == 'Mul':
                 # pattern 1
+                if not output.inputs[1].is_scalar() or not input2.inputs[1].is_scalar():
+                    continue
                 mean = output.inputs[1].get_tensor_value()
                 scale = input2.inputs[1].get_tensor_value()
+                if scale <= 0:
+                    continue
             else:
                 # pattern 2
                 mean = 0.0
diff --git a/tf2onnx/rewriter/random_uniform.py b/tf2onnx/rewriter/random_uniform.py
index 6e9149a..695bc62 100644
--- a/tf2onnx/rewriter/random_uniform.py
+++ b/tf2onnx/rewriter/random_uniform.py
@@ -28,6 +28,8 @@ def rewrite_random_uniform(g, ops):
         input2 = match.get_op('input2')
         output = match.get_op('output')
         ru_op = match.get_op('input1')
+        if not can_rewrite(g, match, [output.inputs[1], input2.inputs[0], input2.inputs[1]]):
+            continue
         # max is on input 0
         tmax = input2.inputs[0].get_tensor_value()
         tmin = input2.inputs[1].get_tensor_value()
@@ -55,9 +57,13 @@ def rewrite_random_uniform_fold_const(g, ops):
         output = match.get_op('output')
         mul = match.get_op('mul')
         ru_op = match.get_op('input1')
+        if not can_rewrite(g, match, [output.inputs[1], mul.inputs[1]]):
+            continue
 
         tmax_minus_tmin = mul.inputs[1].get_tensor_value()
         tmin = output.inputs[1].get_tensor_value()
+        if tmax_minus_tmin < 0:
+            continue
         tmax = tmin + tmax_minus_tmin
         to_delete = list(set(match.get_nodes()))
         new_node = create_onnx_random_uniform_op(g, tmax, tmin, ru_op, output, to_delete)
@@ -67,6 +73,15 @@ def rewrite_random_uniform_fold_const(g, ops):
     return ops
 
 
+def can_rewrite(g, match, params):
+    """The range must be given by scalars, and nothing else may use the number drawn"""
+    if not all(param.is_scalar() for param in params):
+        return False
+    output = match.get_op('output')
+    drawn = [match.get_op('input1'), output.inputs[0]]
+    return g.is_safe_to_remove_nodes(drawn + [output], [output.output[0]])
+
+
 def create_onnx_random_uniform_op(g, tmax, tmin, ru_op, output, to_delete):
     dtype = g.get_dtype(output.output[0])
     op_name = utils.make_name("RandomUniform")
-- 
2.43.0


From e40321382278f9f603191da88fbbb7baf260ccf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:38 +0000
Subject: [PATCH 101/114] fix: flatten rewriter took the shape of another
 tensor for that of its input

---
 tf2onnx/rewriter/flatten_rewriter.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/tf2onnx/rewriter/flatten_rewriter.py b/tf2onnx/rewriter/flatten_rewriter.py
index fac9263..8d6a980 100644
--- a/tf2onnx/rewriter/flatten_rewriter.py
+++ b/tf2onnx/rewriter/flatten_rewriter.py
@@ -62,9 +62,13 @@ def rewrite_flatten(g, ops):
             if check_fixed_input_shape:
                 need_rewrite = slice_node.inputs[0].is_const() and \
                                np.array_equal(list(input_shape), list(slice_node.inputs[0].get_tensor_value()))
-                if not need_rewrite:
-                    continue
+            else:
+                need_rewrite = match.get_tensor("input2") == reshape_node.input[0]
+            if not need_rewrite:
+                continue
 
+            if not all(inp.is_const() for inp in slice_node.inputs[1:]):
+                continue
             begin = slice_node.inputs[1].get_tensor_value(as_list=False)
             end = slice_node.inputs[2].get_tensor_value(as_list=False)
             strides = slice_node.inputs[3].get_tensor_value(as_list=False)
@@ -74,12 +78,6 @@ def rewrite_flatten(g, ops):
                 continue
 
             to_remove = [n for n in match.get_nodes() if n != input_node]
-            safe = g.safe_to_remove_nodes(to_remove)
-
-            # Ok if reshape_node is not safe. Will make it safe later.
-            if len(to_remove) - len(safe) > 1:
-                continue
-
             op_name = utils.make_name("Flatten")
             out_name = utils.port_name(op_name)
             g.make_node("Flatten", [reshape_node.input[0]], outputs=[out_name], name=op_name)
@@ -88,7 +86,6 @@ def rewrite_flatten(g, ops):
             output_shape = g.get_shape(reshape_node.output[0])
             g.set_shape(out_name, output_shape)
             g.replace_all_inputs(reshape_node.output[0], out_name, ops=ops)
-            for n in to_remove:
-                g.remove_node(n.name)
+            g.safe_remove_nodes(to_remove)
 
     return ops
-- 
2.43.0


From 2cc8109b8c32407f5f3c3d7f4d2c17ef8222cce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:38 +0000
Subject: [PATCH 102/114] fix: transpose rewriter reversed the dimensions
 whatever the permutation was

---
 tf2onnx/rewriter/transpose_rewriter.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/rewriter/transpose_rewriter.py b/tf2onnx/rewriter/transpose_rewriter.py
index 4ea83a6..abc3ea1 100644
--- a/tf2onnx/rewriter/transpose_rewriter.py
+++ b/tf2onnx/rewriter/transpose_rewriter.py
@@ -15,8 +15,9 @@ def rewrite_transpose(g, ops):
         OpTypePattern('Transpose', name='output', inputs=[
             OpTypePattern(None),
             OpTypePattern('Sub', inputs=[
-                OpTypePattern('Sub', inputs=["*", "*"]),
-                OpTypePattern('Range', inputs=["*", "*", "*"]),
+                OpTypePattern('Sub', inputs=[OpTypePattern("*", name='rank'), OpTypePattern("*", name='one')]),
+                OpTypePattern('Range', inputs=[OpTypePattern("*", name='start'), OpTypePattern("*", name='limit'),
+                                               OpTypePattern("*", name='delta')]),
             ]),
         ])
 
@@ -25,6 +26,16 @@ def rewrite_transpose(g, ops):
     for match in match_results:
         output = match.get_op('output')
         shape = g.get_shape(output.input[0])
+        if shape is None:
+            continue
+        # the permutation must be (rank - 1) - range(0, rank, 1)
+        if not all(match.get_op(name).is_scalar() and match.get_op(name).get_tensor_value() == value
+                   for name, value in [('one', 1), ('start', 0), ('delta', 1)]):
+            continue
+        if not all(op.type == "Rank" and op.input[0] == output.input[0] or
+                   op.is_scalar() and op.get_tensor_value() == len(shape)
+                   for op in [match.get_op('rank'), match.get_op('limit')]):
+            continue
         dims = range(len(shape) - 1, -1, -1)
         output.set_attr("perm", dims)
         g.remove_input(output, output.input[1], 1)
-- 
2.43.0


From 69b4ab197bebd439910f11ec574c19ed09cd3e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:55 +0000
Subject: [PATCH 103/114] fix: layer normalization rewriter ignored the order
 of Sub, keep_dims and the type

---
 tf2onnx/rewriter/layer_normalization_rewriter.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/tf2onnx/rewriter/layer_normalization_rewriter.py b/tf2onnx/rewriter/layer_normalization_rewriter.py
index a0e5e1c..8ee29d8 100644
--- a/tf2onnx/rewriter/layer_normalization_rewriter.py
+++ b/tf2onnx/rewriter/layer_normalization_rewriter.py
@@ -20,7 +20,7 @@ def rewrite_layer_normalization(g, ops):
     inner_pattern = \
         OpTypePattern('Rsqrt', inputs=[
             OpTypePattern('Add', inputs=[
-                OpTypePattern('Mean', allow_reorder=False, inputs=[
+                OpTypePattern('Mean', name='variance', allow_reorder=False, inputs=[
                     OpTypePattern('Square', inputs=[
                         OpTypePattern('Sub', allow_reorder=False, inputs=[
                             OpTypePattern('*', name='input'),
@@ -43,7 +43,7 @@ def rewrite_layer_normalization(g, ops):
                     inner_pattern,
                     OpTypePattern('*', name='scale')
                 ]),
-                OpTypePattern('Sub', inputs=[
+                OpTypePattern('Sub', allow_reorder=False, inputs=[
                     OpTypePattern('*', name='input_r3'),
                     OpTypePattern('Mean', name='mean_r2')
                 ])
@@ -55,7 +55,7 @@ def rewrite_layer_normalization(g, ops):
             OpTypePattern('Mul', name='scale_mul', inputs=[
                 OpTypePattern('Mul', inputs=[
                     inner_pattern,
-                    OpTypePattern('Sub', inputs=[
+                    OpTypePattern('Sub', allow_reorder=False, inputs=[
                         OpTypePattern('*', name='input_r3'),
                         OpTypePattern('Mean', name='mean_r2')
                     ])
@@ -69,7 +69,7 @@ def rewrite_layer_normalization(g, ops):
             OpTypePattern('Mul', name='scale_mul', inputs=[
                 OpTypePattern('Mul', inputs=[
                     OpTypePattern('*', name='scale'),
-                    OpTypePattern('Sub', inputs=[
+                    OpTypePattern('Sub', allow_reorder=False, inputs=[
                         OpTypePattern('*', name='input_r3'),
                         OpTypePattern('Mean', name='mean_r2')
                     ])
@@ -94,7 +94,9 @@ def rewrite_layer_normalization(g, ops):
                 if match.get_op('mean').name != match.get_op('mean_r2').name:
                     continue
                 inp = match.get_op('mean').input[0]
-                if rank != 3:
+                if rank != 3 or g.get_dtype(input_tensor) != TensorProto.FLOAT:
+                    continue
+                if not all(match.get_op(name).get_attr_value('keep_dims', 0) for name in ['mean', 'variance']):
                     continue
                 mean_axes = match.get_op('mean_axes').get_tensor_value(as_list=True)
                 variance_axes = match.get_op('variance_axes').get_tensor_value(as_list=True)
-- 
2.43.0


From c92236c78a5ffa2a3cbdd1b839ae3e61138243cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:01 +0000
Subject: [PATCH 104/114] fix: eye rewriter ignored batches, bands, given sizes
 and the matrix whose diagonal is set

---
 tf2onnx/rewriter/eye_rewriter.py | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/tf2onnx/rewriter/eye_rewriter.py b/tf2onnx/rewriter/eye_rewriter.py
index b2e3066..5838ceb 100644
--- a/tf2onnx/rewriter/eye_rewriter.py
+++ b/tf2onnx/rewriter/eye_rewriter.py
@@ -148,23 +148,35 @@ def rewrite_eye(g, ops):
             else:
                 continue
 
-            num_rows = min_node.inputs[0]
-            num_columns = min_node.inputs[1]
-
             old_output = match_result.get_op("output_eye_matrix")
+            is_set_diag = old_output.type.startswith("MatrixSetDiag")
+            if g.get_rank(old_output.output[0]) != 2:
+                # EyeLike can't make batches
+                continue
+            if match_result.get_op("fill_value") not in old_output.inputs[1 if is_set_diag else 0].inputs:
+                continue
+            # k, and for MatrixDiagV3 num_rows, num_cols and padding_value must have their defaults
+            if not all(inp.is_const() and (inp.get_tensor_value(as_list=False) == default).all()
+                       for inp, default in zip(old_output.inputs[2 if is_set_diag else 1:], [0, -1, -1, 0])):
+                continue
+            if is_set_diag:
+                zeros = old_output.inputs[0]
+                if not zeros.inputs[1].is_const() or zeros.inputs[1].get_tensor_value() != 0:
+                    continue
+
             output_dtypes = [g.get_dtype(old_output.output[0])]
             output_shapes = [g.get_shape(old_output.output[0])]
             g.remove_node(old_output.name)
 
             # onnx op "EyeLike" need a 2D tensor, so generate it
 
-            num_rows = GraphBuilder(g).make_unsqueeze(
-                {"axes": [0], "data": num_rows.output[0]}, return_node=True)
-            num_columns = GraphBuilder(g).make_unsqueeze(
-                {"axes": [0], "data": num_columns.output[0]}, return_node=True)
-            matrix_shape = g.make_node("Concat", [num_rows.output[0], num_columns.output[0]], attr={"axis": 0})
+            if is_set_diag:
+                matrix_shape = zeros.input[0]
+            else:
+                size = GraphBuilder(g).make_unsqueeze({"axes": [0], "data": min_node.output[0]})
+                matrix_shape = g.make_node("Concat", [size, size], attr={"axis": 0}).output[0]
             # cast nodes added for "ConstantOfShape" in ONNX only accepts int64 data.
-            matrix_shape_int64 = g.make_node("Cast", matrix_shape.output, attr={"to": onnx_pb.TensorProto.INT64})
+            matrix_shape_int64 = g.make_node("Cast", [matrix_shape], attr={"to": onnx_pb.TensorProto.INT64})
             zero_matrix = g.make_node("ConstantOfShape", matrix_shape_int64.output)
 
             g.make_node("EyeLike", zero_matrix.output, attr={"dtype": output_dtypes[0]},
-- 
2.43.0


From bec542e744afbb64ebc09d94399c672a5d4a01e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:01 +0000
Subject: [PATCH 105/114] fix: fused operators lost alpha, epsilon and
 data_format

---
 tf2onnx/rewriter/fused_op_rewriter.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/rewriter/fused_op_rewriter.py b/tf2onnx/rewriter/fused_op_rewriter.py
index 35ab071..3bfbafc 100644
--- a/tf2onnx/rewriter/fused_op_rewriter.py
+++ b/tf2onnx/rewriter/fused_op_rewriter.py
@@ -23,7 +23,15 @@ def rewrite_fused_ops(g, ops):
             for op in op_types:
                 num_inputs = {"BiasAdd": 2, "FusedBatchNorm": 5}.get(op, 1 + len(extra_inputs))
                 my_inputs = [last_output] + extra_inputs[:num_inputs - 1]
-                new_node = g.make_node(op, my_inputs, skip_conversion=False,
+                attr = {}
+                if op == "LeakyRelu":
+                    attr["alpha"] = node.get_attr_value("leakyrelu_alpha", 0.2)
+                if op == "FusedBatchNorm":
+                    attr["epsilon"] = node.get_attr_value("epsilon", 1e-4)
+                    attr["is_training"] = 0
+                if op in ["BiasAdd", "FusedBatchNorm"] and "data_format" in node.attr:
+                    attr["data_format"] = node.get_attr_value("data_format")
+                new_node = g.make_node(op, my_inputs, attr=attr, skip_conversion=False,
                                        op_name_scope=node.name, dtypes=[dtype], shapes=[shape])
                 last_output = new_node.output[0]
                 extra_inputs = extra_inputs[num_inputs - 1:]
-- 
2.43.0


From bc58ca02eaaf9f4d96ae1b9f37ee0a2215df061b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:51 +0000
Subject: [PATCH 106/114] fix: folding ListDiff sorted its values, and lost the
 indices and their type

---
 tf2onnx/tfonnx.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/tf2onnx/tfonnx.py b/tf2onnx/tfonnx.py
index a9f6081..c91437f 100644
--- a/tf2onnx/tfonnx.py
+++ b/tf2onnx/tfonnx.py
@@ -77,7 +77,7 @@ def rewrite_constant_fold(g, ops):
         "Cast": np.asarray,
         "ConcatV2": np.concatenate,
         "Less": np.less,
-        "ListDiff": np.setdiff1d,
+        "ListDiff": np.isin,
         "Mul": np.multiply,
         "Pack": np.stack,
         "Range": np.arange,
@@ -115,8 +115,13 @@ def rewrite_constant_fold(g, ops):
                     elif op.type == "ListDiff":
                         out_type = op.get_attr_int("out_idx")
                         np_type = tf2onnx.utils.map_onnx_to_numpy_type(out_type)
-                        val = func(*inputs)
-                        val = val.astype(np_type)
+                        # the values that are kept, in order and with duplicates, and their indices
+                        keep = ~np.isin(*inputs)
+                        val = inputs[0][keep]
+                        index = np.nonzero(keep)[0].astype(np_type)
+                        idx_const = g.make_const(utils.make_name(op.name), index)
+                        ops.append(idx_const)
+                        g.replace_all_inputs(op.output[1], idx_const.output[0], ops=ops)
                     elif op.type in ["Pack"]:
                         # handle ops that need input array and axis
                         axis = op.get_attr_int("axis")
-- 
2.43.0


From 42f56d67c02d59365bea7a755faa15ae2dfe9c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:14 +0000
Subject: [PATCH 107/114] fix: casts for float-only targets changed axes,
 indices, booleans and conversions

---
 tf2onnx/tfonnx.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/tf2onnx/tfonnx.py b/tf2onnx/tfonnx.py
index c91437f..d1bedc1 100644
--- a/tf2onnx/tfonnx.py
+++ b/tf2onnx/tfonnx.py
@@ -167,7 +167,11 @@ def rewrite_incomplete_type_support(g, ops, impacted_ops):
     It is not helping performance but better than the model not working at all.
     """
     ignored_input_index = {
+        "ReduceSum": [1],  # axes
+        "Slice": [1, 2, 3, 4],  # starts, ends, axes, steps
+        "Split": [1],  # split
         "Tile": [1],  # Tile's second input can only be int64
+        "Unsqueeze": [1],  # axes
         "Where": [0],  # Where's first input is bool
     }
     new_ops = []
@@ -188,29 +192,30 @@ def rewrite_incomplete_type_support(g, ops, impacted_ops):
                     logger.warning("adding Cast for op %s (type is %s)' input: %s, dtype should not be None",
                                    op.name, op.type, input_name)
 
-                if dtype != onnx_pb.TensorProto.FLOAT:
+                if dtype not in [onnx_pb.TensorProto.FLOAT, onnx_pb.TensorProto.STRING]:
                     output_dtype = dtype
                     logger.debug("insert cast for node %s on input %s", op.name, input_name)
-                    if input_node and input_node.type == "Cast" \
-                            and len(g.find_output_consumers(input_node.output[0])) == 1:
-                        input_node.set_attr("to", onnx_pb.TensorProto.FLOAT)
-                        g.set_dtype(input_name, onnx_pb.TensorProto.FLOAT)
-                    else:
-                        cast_node = g.insert_new_node_on_input(op, "Cast", input_name,
-                                                               to=onnx_pb.TensorProto.FLOAT)
-                        g.set_dtype(cast_node.output[0], onnx_pb.TensorProto.FLOAT)
-                        g.copy_shape(input_name, cast_node.output[0])
-                        cast_inserted.append(cast_node)
+                    cast_node = g.insert_new_node_on_input(op, "Cast", input_name, input_index=i,
+                                                           to=onnx_pb.TensorProto.FLOAT)
+                    g.set_dtype(cast_node.output[0], onnx_pb.TensorProto.FLOAT)
+                    g.copy_shape(input_name, cast_node.output[0])
+                    cast_inserted.append(cast_node)
             if output_dtype:
                 # insert reverse cast if needed
                 for output_name in op.output:
+                    if g.get_dtype(output_name) not in [output_dtype, None]:
+                        continue  # the type of the output does not depend on the input
                     name = utils.make_name(op.name)
                     logger.debug("insert cast back for node %s on output %s [dtype=%s]", op.name, output_name,
                                  output_dtype)
                     output_cast = g.insert_new_node_on_output("Cast", output_name, name=name,
                                                               to=output_dtype)
                     g.set_dtype(output_cast.output[0], output_dtype)
+                    g.set_dtype(output_name, onnx_pb.TensorProto.FLOAT)
                     g.copy_shape(output_name, output_cast.output[0])
+                    for i, graph_output in enumerate(g.outputs):
+                        if graph_output == output_name:
+                            g.outputs[i] = output_cast.output[0]
                     cast_inserted.append(output_cast)
 
             if cast_inserted:
-- 
2.43.0


From 7b74ef4748e2c71e919a2e983e646900dd3851b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:29 +0000
Subject: [PATCH 108/114] fix: a bias added after a biased Conv2D made a
 convolution of four inputs

---
 tf2onnx/rewriter/conv2d_with_add_rewriter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/rewriter/conv2d_with_add_rewriter.py b/tf2onnx/rewriter/conv2d_with_add_rewriter.py
index fb719b5..ed164e6 100644
--- a/tf2onnx/rewriter/conv2d_with_add_rewriter.py
+++ b/tf2onnx/rewriter/conv2d_with_add_rewriter.py
@@ -16,9 +16,10 @@ def rewrite_biasadd_with_conv2d(g, ops):
     pattern1 = \
         OpTypePattern('BiasAdd', name='biasadd', inputs=[
             OpTypePattern('Conv2D|Conv2DBackpropInput', name='conv', inputs=['*', '*']), '*'])
+    # the third input of Conv2DBackpropInput is its data, that of Conv2D would be a bias
     pattern2 = \
         OpTypePattern('BiasAdd', name='biasadd', inputs=[
-            OpTypePattern('Conv2D|Conv2DBackpropInput', name='conv', inputs=[
+            OpTypePattern('Conv2DBackpropInput', name='conv', inputs=[
                 '*', '*', '*']), '*'], allow_reorder=True)
 
     for pattern in [pattern1, pattern2]:
-- 
2.43.0


From 4064bd0db4823e9c99d049e36ee3a05d2af0ce17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:29 +0000
Subject: [PATCH 109/114] fix: dilations were taken from strided, dilated,
 cropped or shared convolutions

---
 tf2onnx/rewriter/conv_dilations_rewriter.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/rewriter/conv_dilations_rewriter.py b/tf2onnx/rewriter/conv_dilations_rewriter.py
index d162c8d..69f3ab3 100644
--- a/tf2onnx/rewriter/conv_dilations_rewriter.py
+++ b/tf2onnx/rewriter/conv_dilations_rewriter.py
@@ -68,10 +68,22 @@ def rewrite_conv_dilations(g, ops):
 
             if block_shape1 != block_shape2:
                 continue
-            ndims = 2 if is_conv_1d else len(block_shape1)
+            # a block for every spatial dimension (for channels first it begins with the channels)
+            data_format = conv.get_attr_value("data_format")
+            channels_first = data_format in [b"NCHW", b"NCDHW"]
+            ndims = 1 if is_conv_1d else 3 if conv.type == "Conv3D" else 2
+            if len(block_shape1) != ndims + int(channels_first and not is_conv_1d):
+                continue
 
             if conv.get_attr_value("padding") != b"VALID":
                 continue
+            # only a plain convolution is the same on interleaved blocks
+            if any(v != 1 for attr in ["strides", "dilations"] for v in conv.get_attr_value(attr, [])):
+                continue
+            # what is between the two must not be used anywhere else
+            between = [conv, expand, squeeze] if is_conv_1d else [conv]
+            if any(len(g.find_output_consumers(n.output[0])) != 1 for n in between):
+                continue
 
             if space_to_batch.inputs[2].is_const() and batch_to_space.inputs[2].is_const():
                 paddings = space_to_batch.inputs[2].get_tensor_value(as_list=True)
@@ -80,6 +92,8 @@ def rewrite_conv_dilations(g, ops):
                 if any(c[0] != 0 for c in crops):
                     continue
                 base_end_pad = [p[1] - c[1] for p, c in zip(paddings, crops)]
+                if any(bp < 0 for bp in base_end_pad):
+                    continue
                 if not all(0 <= p[1] - bp < bs for p, bp, bs in zip(paddings, base_end_pad, block_shape1)):
                     continue
                 pad_mode = "EXPLICIT"
-- 
2.43.0


From a0e7282a50b33c7296b08c3f45de0d4eed9fc93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:02 +0000
Subject: [PATCH 110/114] fix: quantized integer weights of tfjs models were
 truncated

---
 tf2onnx/tfjs_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/tfjs_utils.py b/tf2onnx/tfjs_utils.py
index 680c298..94b76da 100644
--- a/tf2onnx/tfjs_utils.py
+++ b/tf2onnx/tfjs_utils.py
@@ -331,7 +331,10 @@ def read_tfjs_weight(weight, weights_data, offset):
         np_arr = np.frombuffer(weights_data, dtype=q_dtype, count=count, offset=offset)
         num_bytes = np_arr.nbytes
         if 'scale' in q_info:
-            np_arr = np_arr.astype(np_dtype) * q_info['scale'] + q_info['min']
+            np_arr = np_arr.astype(np.float32 if np_dtype.kind == 'f' else np.float64) * q_info['scale'] + q_info['min']
+            if np_dtype.kind != 'f':
+                # like tfjs: integers are rounded, casting them would drop their fractions
+                np_arr = np.round(np_arr).astype(np_dtype)
         else:
             np_arr = np_arr.astype(np_dtype)
     else:
-- 
2.43.0


From 67681e886345d65a6bce48fb29eb326a364bd9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:47 +0000
Subject: [PATCH 111/114] fix: GatherNd below opset 11 declared its results as
 scalars

---
 tf2onnx/onnx_opset/tensor.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index 34f178b..ac2619e 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -523,7 +523,7 @@ def _make_gathernd_inner_loop(ctx, params, index, dtype):
     g = ctx.create_new_graph_with_same_config()
     g.add_graph_input(trip_name, TensorProto.INT64, [1])
     g.add_graph_input(cond_name, TensorProto.BOOL, [])
-    g.add_graph_input(cur_name, dtype, [])
+    g.add_graph_input(cur_name, dtype, None)
     g.parent_graph = ctx
 
     index_i = g.make_node("Gather", [index.output[0], trip_name], attr={"axis": 0})
@@ -533,7 +533,9 @@ def _make_gathernd_inner_loop(ctx, params, index, dtype):
     g.make_node("Identity", [cond_name], outputs=[cond_out_name])
 
     g.add_graph_output(cond_out_name, TensorProto.BOOL, [])
-    g.add_graph_output(result_name, dtype, [])
+    # the rank changes from one iteration to the next
+    g.outputs.append(result_name)
+    g.set_dtype(result_name, dtype)
 
     branches = {"body": g}
     inner_loop = ctx.make_node("Loop",
@@ -577,7 +579,7 @@ def make_gathernd(ctx, params, indices, output, scope_name, t_params, shapes, dt
 
     g.add_graph_input(trip_name, TensorProto.INT64, [1])
     g.add_graph_input(cond_name, TensorProto.BOOL, [])
-    g.add_graph_input(dummy_name, t_params, [])
+    g.add_graph_input(dummy_name, t_params, None)
     g.parent_graph = ctx
 
     index = g.make_node("Gather", [flatten_indices.output[0], trip_name], attr={"axis": 0})
@@ -590,8 +592,9 @@ def make_gathernd(ctx, params, indices, output, scope_name, t_params, shapes, dt
     g.make_node("Identity", [inner_loop.output[0]], outputs=[result_name])
 
     g.add_graph_output(cond_out_name, TensorProto.BOOL, [])
-    g.add_graph_output(dummy_out_name, t_params, [])
-    g.add_graph_output(result_name, t_params, [])
+    for name in [dummy_out_name, result_name]:
+        g.outputs.append(name)
+        g.set_dtype(name, t_params)
 
     branches = {"body": g}
     gathernd_loop = ctx.make_node("Loop",
-- 
2.43.0


From 8a6b545418f039e6f1660683946fc7eb2b10c8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:22 +0000
Subject: [PATCH 112/114] fix: resizing images that are not floats made models
 of inconsistent types

---
 tf2onnx/onnx_opset/nn.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tf2onnx/onnx_opset/nn.py b/tf2onnx/onnx_opset/nn.py
index fd5b8fe..e01dd15 100644
--- a/tf2onnx/onnx_opset/nn.py
+++ b/tf2onnx/onnx_opset/nn.py
@@ -1370,6 +1370,7 @@ class Resize:
         utils.make_sure(node.type != "ResizeBicubic", "Opset 11 is required for bicubic interpolation for node %s",
                         node.name)
         mode = "linear" if node.type == "ResizeBilinear" else "nearest"
+        cls._cast_images(ctx, node)
         node.type = "Upsample"
         shape = ctx.get_shape(node.input[0])
         target_shape = node.inputs[1].get_tensor_value()
@@ -1407,6 +1408,7 @@ class Resize:
             cubic_coeff_a = -0.5 if exclude_outside else -0.75
         else:
             mode = "nearest"
+        cls._cast_images(ctx, node)
         roi = ctx.make_const(utils.make_name("roi"), np.array([]).astype(np.float32))
         input_nchw = ctx.make_node("Transpose", [node.input[0]], {"perm": constants.NHWC_TO_NCHW})
         shape = ctx.get_shape(node.input[0])
@@ -1461,6 +1463,13 @@ class Resize:
         ctx.make_node("Transpose", resize.output, {"perm": constants.NCHW_TO_NHWC},
                       name=node.name, outputs=node.output, shapes=shapes, dtypes=dtypes)
 
+    @classmethod
+    def _cast_images(cls, ctx, node):
+        # All methods but nearest neighbor return floats for images of any type
+        dtype = ctx.get_dtype(node.output[0])
+        if dtype is not None and ctx.get_dtype(node.input[0]) != dtype:
+            ctx.insert_new_node_on_input(node, "Cast", node.input[0], to=dtype)
+
     @classmethod
     def _convert_since_9(cls, ctx, node, op_type, use_target_size=False):
 
@@ -1476,6 +1485,7 @@ class Resize:
             utils.make_sure(not node.attr["half_pixel_centers"].i,
                             "Opset 11 is required for half_pixel_centers=True for node %s", node.name)
         mode = "linear" if node.type == "ResizeBilinear" else "nearest"
+        cls._cast_images(ctx, node)
 
         # because onnxruntime only supports to scale the last two dims so transpose is inserted
         input_nchw = ctx.make_node("Transpose", [node.input[0]], {"perm": constants.NHWC_TO_NCHW})
-- 
2.43.0


From 851ab2ac4c8d5d8505810f5d51c18ab6b23ea1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:33 +0000
Subject: [PATCH 113/114] fix: OnesLike below opset 9 returned its input

---
 tf2onnx/onnx_opset/generator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/onnx_opset/generator.py b/tf2onnx/onnx_opset/generator.py
index ec91735..d74a3f2 100644
--- a/tf2onnx/onnx_opset/generator.py
+++ b/tf2onnx/onnx_opset/generator.py
@@ -239,9 +239,11 @@ def _const_like_version_1(ctx, node, value):
     dtypes = node.output_dtypes
     ctx.remove_node(node.name)
     casted_input = ctx.make_node("Cast", node.input, attr={'to': onnx_pb.TensorProto.INT64})
+    const_zero = ctx.make_const(utils.make_name("zero"), np.array(0).astype(np.int64))
     const_value = ctx.make_const(utils.make_name("value"), np.array(value).astype(np.int64))
-    mul_node = ctx.make_node('Mul', inputs=[casted_input.output[0], const_value.output[0]])
-    ctx.make_node("Cast", inputs=[mul_node.output[0]],
+    mul_node = ctx.make_node('Mul', inputs=[casted_input.output[0], const_zero.output[0]])
+    add_node = ctx.make_node('Add', inputs=[mul_node.output[0], const_value.output[0]])
+    ctx.make_node("Cast", inputs=[add_node.output[0]],
                   attr={'to': dtypes[0]},
                   name=node.name, outputs=node.output,
                   shapes=shapes, dtypes=dtypes)
-- 
2.43.0


From bd2a93de55a6328fce7a545a35df72511746a9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:11 +0000
Subject: [PATCH 114/114] fix: only the first group of weights of a tfjs model
 was read

---
 tf2onnx/tfjs_utils.py | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/tf2onnx/tfjs_utils.py b/tf2onnx/tfjs_utils.py
index 94b76da..ae3bf41 100644
--- a/tf2onnx/tfjs_utils.py
+++ b/tf2onnx/tfjs_utils.py
@@ -270,26 +270,26 @@ def graphs_from_tfjs(model_path, input_names=None, output_names=None, shape_over
                     "not format %s. Use Google's tfjs converter to convert to a graph model, then try again.",
                     model_format)
 
-    weights_manifest = model['weightsManifest'][0]
-
-    sharded_data = []
-    for path in weights_manifest["paths"]:
-        with open(os.path.join(os.path.dirname(model_path), path), "rb") as f:
-            shard_bytes = f.read()
-            if zip_compressed:
-                shard_bytes = gzip.decompress(shard_bytes)
-            sharded_data.append(shard_bytes)
-
-    weights_data = b''.join(sharded_data)
     weights = {}
-
-    i = 0
-    for weight in weights_manifest['weights']:
-        weight_name, np_arr, num_bytes = read_tfjs_weight(weight, weights_data, offset=i)
-        weights[weight_name] = np_arr
-        i += num_bytes
-
-    utils.make_sure(len(weights_data) == i, "Total weight bytes %d doesn't match read bytes %d", len(weights_data), i)
+    for weights_manifest in model['weightsManifest']:
+        sharded_data = []
+        for path in weights_manifest["paths"]:
+            with open(os.path.join(os.path.dirname(model_path), path), "rb") as f:
+                shard_bytes = f.read()
+                if zip_compressed:
+                    shard_bytes = gzip.decompress(shard_bytes)
+                sharded_data.append(shard_bytes)
+
+        weights_data = b''.join(sharded_data)
+
+        i = 0
+        for weight in weights_manifest['weights']:
+            weight_name, np_arr, num_bytes = read_tfjs_weight(weight, weights_data, offset=i)
+            weights[weight_name] = np_arr
+            i += num_bytes
+
+        utils.make_sure(len(weights_data) == i, "Total weight bytes %d doesn't match read bytes %d",
+                        len(weights_data), i)
     topology = model['modelTopology']
 
     tensors_to_rename = {}
-- 
2.43.0

