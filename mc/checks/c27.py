"""C27: a rewriter replaces only what its replacement computes."""
import itertools

import numpy as np
import tensorflow as tf
from tensorflow.core.framework import attr_value_pb2, node_def_pb2

from mc import tfcase
from mc.tfcase import Suite, dyn, mixed, shp

tfcase.define(globals(), "C27",
              rule="for every rewriter its pattern and all its neighbours: each slot of the pattern (operator, order of inputs, constants, "
                   "types, shapes, attributes, sharing of intermediate results) takes every alternative, alone and with every other slot "
                   "(thorough: all combinations of two, and every three slots); every graph is converted by the code in /repo, run and compared with TensorFlow; non-trivial "
                   "and distinct = distinct emitted op sequences",
              group=8)
R = tf.raw_ops
F = "float32"
THOROUGH = False
v1 = tf.compat.v1


def neighbours(slots, depth):
    """slots: {name: [canonical, alternatives...]}: all assignments that differ from the canonical one in up to `depth` slots"""
    names = list(slots)
    for n in range(depth + 1):
        for which in itertools.combinations(names, n):
            alts = [slots[w][1:] for w in which]
            if n > (2 if THOROUGH else 1):
                # every alternative of each of these slots, not every combination
                combos = [[a[i % len(a)] for a in alts] for i in range(max(map(len, alts)))] if all(alts) else []
            else:
                combos = itertools.product(*alts)
            for vals in combos:
                d = {k: v[0] for k, v in slots.items()}
                d.update(zip(which, vals))
                label = ".".join("%s=%s" % (w, lab(d[w])) for w in which) or "canonical"
                yield label, d


def lab(v):
    if isinstance(v, np.ndarray):
        return "c%s_%s" % (shp(v.shape), "_".join("%g" % x for x in v.reshape(-1)[:3]))
    if isinstance(v, (list, tuple)):
        return "_".join(lab(x) for x in v) or "e"
    return getattr(v, "__name__", None) or str(v).replace("/", ".")


def optimized(g, ins, outs, opset, **kw):
    """the way of the command line: TensorFlow's optimizer comes first"""
    from tf2onnx import tf_loader
    gd = tf_loader.tf_optimize(ins, outs, g.as_graph_def(add_shapes=True))
    with tf.Graph().as_default() as g2:
        tf.import_graph_def(gd, name="")
        return tfcase.convert(g2, ins, outs, opset, **kw)


class Fam:
    """one rewriter: slots, and a function (slots) -> (build, inputs, feeds) or None when the combination makes no sense"""

    def __init__(self, s, name, slots, make, depth, opsets=(18,), both=2, ways=(False, True), **kw):
        for label, d in neighbours(slots, depth):
            try:
                got = make(**d)
            except (ValueError, TypeError):
                got = None
            if got is None:
                continue
            build, inputs, feeds = got
            for o in opsets if label == "canonical" or len(opsets) == 1 else opsets[:both if THOROUGH or label.count("=") < 2 else 1]:
                for direct in ways:
                    if direct and label.count("=") > 1:
                        continue
                    s.add("%s/%s%s" % (name, label, "/direct" if direct else ""), build, inputs, feeds, o, direct=direct, **kw)


def const(v, dtype):
    return tf.constant(v, dtype)


def order(swap, f, a, b):
    return f(b, a) if swap else f(a, b)


def mul(a, b):
    return R.Mul(x=a, y=b)


def add(a, b):
    return R.AddV2(x=a, y=b)


def add1(a, b):
    return R.Add(x=a, y=b)


def sub(a, b):
    return R.Sub(x=a, y=b)


def div(a, b):
    return R.RealDiv(x=a, y=b)


class Params:
    """the operands of a pattern that may be constants or inputs"""

    def __init__(self):
        self.inputs, self.feeds = [], []

    def inp(self, shape, dtype, *values):
        self.inputs.append((shape, dtype))
        self.feeds.append(values)
        return len(self.inputs) - 1

    def operand(self, v, dtype, dynamic):
        if dynamic:
            k = self.inp(list(np.shape(v)), dtype, np.array(v, dtype))
            return lambda phs: phs[k]
        return lambda phs: const(v, dtype)

    def rows(self):
        n = max(len(f) for f in self.feeds)
        return [[f[i % len(f)] for f in self.feeds] for i in range(n)]


def special(n, dtype):
    a = np.array([-2, -1, -0.5, 0, 0.25, 0.5, 1, 1.5, 2, 3, -3, 5])[:n]
    return a.astype(dtype)


def thresholded(s, depth):
    def make(dtype, cmp, cmp_swap, theta, theta_dyn, cast, mul_swap, other, shared, shape):
        p = Params()
        x = special(12, dtype).reshape(4, 3)
        ix = p.inp(shape, dtype, x, x[::-1])
        iy = p.inp([4, 3], dtype, mixed([4, 3], dtype)) if other == "y" else None
        th = p.operand(theta, dtype, theta_dyn)
        if cast == "bool" or cast is not None and np.dtype(cast) != np.dtype(dtype):
            return None

        def build(*phs):
            x = phs[ix]
            if other == "relu":
                x = tf.nn.relu(x)
            c = order(cmp_swap, lambda a, b: cmp(x=a, y=b), x, th(phs))
            k = R.Cast(x=c, DstT=dtype)
            o = {"x": x, "y": phs[iy] if iy is not None else None, "theta": th(phs), "neg": -x, "same": k, "relu": x}[other]
            r = order(mul_swap, mul, k, o)
            return [r] + ([k] if shared == "cast" else [c] if shared == "cmp" else [add(r, k)] if shared == "castuse" else [])
        return build, p.inputs, p.rows()
    Fam(s, "thresholded", dict(dtype=[F, "float64", "float16", "int32", "int64"], cmp=[R.Greater, R.GreaterEqual, R.Less, R.LessEqual], cmp_swap=[0, 1],
                               theta=[np.array(0.5), np.array(0.), np.array(-1.), np.array(2.), np.array([0.5]), np.array([0.5, -1, 2]), np.array([[0.5]]), np.array([[0.], [1.], [-1.], [2.]])], theta_dyn=[0, 1],
                               cast=[None], mul_swap=[0, 1], other=["x", "y", "theta", "neg", "same", "relu"], shared=["", "cast", "cmp", "castuse"], shape=[[4, 3], [None, None], [None, 3]]),
        make, depth, (18, 9, 10))


def leaky(s, depth):
    def make(dtype, op, op_swap, alpha, dynamic, mul_swap, other, shared, shape):
        p = Params()
        x = special(12, dtype).reshape(4, 3)
        ix = p.inp(shape, dtype, x, x[::-1])
        iy = p.inp([4, 3], dtype, mixed([4, 3], dtype)) if other == "y" else None
        al = p.operand(alpha, dtype, dynamic)

        def build(*phs):
            x = phs[ix]
            o = {"x": x, "y": phs[iy] if iy is not None else None, "neg": -x, "id": tf.identity(x)}[other]
            m = order(mul_swap, mul, al(phs), x)
            r = order(op_swap, lambda a, b: op(x=a, y=b), m, o)
            return [r] + ([m] if shared == "mul" else [add(m, r)] if shared == "muluse" else [])
        return build, p.inputs, p.rows()
    Fam(s, "leaky", dict(dtype=[F, "float64", "float16", "int32", "int64"], op=[R.Maximum, R.Minimum], op_swap=[0, 1],
                         alpha=[np.array(0.2), np.array(0.), np.array(1.), np.array(-0.5), np.array(2.), np.array([0.2]), np.array([0.2, 2, -1]), np.array([[0.2]])], dynamic=[0, 1],
                         mul_swap=[0, 1], other=["x", "y", "neg", "id"], shared=["", "mul", "muluse"], shape=[[4, 3], [None, None]]), make, depth, (18, 9, 12))


def flatten(s, depth):
    def make(rank, source, begin, end, stride, masks, last, packing, out_type, shared, shape):
        p = Params()
        dims = [2, 3, 4, 2, 1][:rank]
        x = mixed(dims, F)
        sh = {"static": dims, "batch": [None] + dims[1:], "dyn": dyn(dims)}[shape]
        ix = p.inp(sh, F, *([x, x[:1]] if source == "x" and shape != "static" and last == -1 else [x]))
        odims = {"other": [4, 6, 2, 2, 2][:rank], "perm": dims[::-1]}.get(source)
        iy = p.inp(dyn(odims), F, mixed(odims, F)) if odims else None
        il = p.inp([], out_type, np.array(last, out_type)) if last == -2 else None
        if last == -2:
            p.feeds[il] = (np.array(-1, out_type),)

        def build(*phs):
            x = phs[ix]
            src = phs[iy] if iy is not None else x
            shp_ = const(dims, out_type) if source == "const" else const([4] + dims[1:], out_type) if source == "const4" else R.Shape(input=src, out_type=tf.as_dtype(out_type))
            st = R.StridedSlice(input=shp_, begin=[begin] if begin != "dyn" else tf.cast(tf.reduce_sum(x) * 0, "int32")[None], end=[end], strides=[stride], **{"shrink": dict(shrink_axis_mask=1), "none": {}, "begin": dict(begin_mask=1, shrink_axis_mask=1), "end": dict(end_mask=1),
                                                                                              "beginonly": dict(begin_mask=1)}[masks])
            if masks in ("none", "end", "beginonly"):
                st = R.Squeeze(input=st) if packing == "squeeze" else st
            l = phs[il] if il is not None else const(last, out_type)
            parts = [st, l] if packing not in ("rev", "three") else [l, st] if packing == "rev" else [st, const(1, out_type), l]
            if masks in ("none", "end", "beginonly") and packing != "squeeze":
                l = tf.reshape(l, [1])
                pk = tf.reshape(R.Pack(values=[st, tf.zeros_like(st) + l]), [-1])
            else:
                pk = R.Pack(values=parts)
            r = R.Reshape(tensor=x, shape=pk)
            return [r] + {"": [], "pack": [pk], "slice": [st], "twice": [R.Reshape(tensor=x * 2, shape=pk)], "res": [add(r, r)]}[shared]
        return build, p.inputs, p.rows()
    Fam(s, "flatten", dict(rank=[3, 1, 2, 4, 5], source=["x", "other", "perm", "const", "const4"], begin=[0, 1, -1, -2, "dyn"], end=[1, 2, 0, 3], stride=[1, 2, -1], masks=["shrink", "begin", "none", "end", "beginonly"],
                           last=[-1, -2, 12, 4, 2], packing=["std", "rev", "three", "squeeze"], out_type=["int32", "int64"], shared=["", "pack", "slice", "twice", "res"], shape=["static", "batch", "dyn"]),
        make, depth, (18, 8))


def transpose(s, depth):
    def make(rank, rk, c2, start, delta, lim, shape, shared):
        p = Params()
        dims = [2, 3, 4][:rank]
        n = {"other": 3, "const": rank}.get(rk, rank)
        limit = {"rank": n, "-1": -1, "-n": -n, "n-1": n - 1, "const": rank}[lim]
        perm = (n - c2) - np.arange(start, limit, delta)
        if sorted(perm) != list(range(rank)):
            return None
        ix = p.inp({"static": dims, "dyn": dyn(dims), "n": [None] * rank}[shape], F, mixed(dims, F))
        io = p.inp([2, 1, 1], F, mixed([2, 1, 1], F)) if rk == "other" else None
        ir = p.inp([], "int32", np.array(n, "int32")) if rk == "input" else None

        def build(*phs):
            x = phs[ix]
            k = {"rank": lambda: R.Rank(input=x), "size": lambda: R.Size(input=R.Shape(input=x)), "const": lambda: const(rank, "int32"), "other": lambda: R.Rank(input=phs[io]), "input": lambda: phs[ir]}[rk]()
            limit = {"rank": k, "-1": const(-1, "int32"), "-n": R.Neg(x=k), "n-1": sub(k, const(1, "int32")), "const": const(rank, "int32")}[lim]
            rng = R.Range(start=const(start, "int32"), limit=limit, delta=const(delta, "int32"))
            inner = sub(k, const(c2, "int32"))
            pm = sub(inner, rng)
            r = R.Transpose(x=x, perm=pm)
            return [r] + {"": [], "perm": [pm], "inner": [inner], "use": [R.Transpose(x=x + 1, perm=pm)]}[shared]
        return build, p.inputs, p.rows()
    Fam(s, "transpose", dict(rank=[3, 2, 1], rk=["rank", "size", "const", "other", "input"], c2=[1, 0, 2, 3, 4, -1], start=[0, 1, 2, -1, -2], delta=[1, -1], lim=["rank", "-1", "-n", "n-1", "const"], shape=["static", "dyn"], shared=["", "perm", "inner", "use"]),
        make, depth + 2, (18,))


def eye(s, depth):
    def make(op, which, fill, base, k, rows, cols, dynamic, dtype, batch, cast, shared, shape_as):
        p = Params()
        vals = (2, 4, 3)
        n = p.inp([], "int32", *[np.array(v, "int32") for v in vals])
        m = p.inp([], "int32", *[np.array(v, "int32") for v in (3, 2, 3)])
        nb = list(batch)

        def build(*phs):
            a, b = phs[n], phs[m]
            if cast:
                a, b = tf.cast(a, "int64"), tf.cast(b, "int64")
            if which == "same":
                mn = R.Minimum(x=a, y=a)
                b = a
            elif which == "minab":
                mn = R.Minimum(x=a, y=b)
            elif which == "minba":
                mn = R.Minimum(x=b, y=a)
            elif which == "const":
                mn = R.Minimum(x=a, y=const(2, a.dtype))
                b = const(2, a.dtype)
            elif which == "max":
                mn = R.Maximum(x=a, y=a)
                b = a
            mn32 = R.Cast(x=mn, DstT="int32") if shape_as == "cast" else mn
            if shape_as == "reshape":
                dv = R.Reshape(tensor=mn32, shape=[1])
            elif shape_as == "pack":
                dv = tf.concat([np.array(nb, "int32"), R.Pack(values=[R.Cast(x=mn, DstT="int32")])], 0)
            else:
                dv = R.ConcatV2(values=[const(np.array(nb, "int32" if mn32.dtype == tf.int32 else "int64"), mn32.dtype), R.ExpandDims(input=mn32, axis=0)], axis=0)
            d = R.Fill(dims=dv, value=const(fill, dtype))
            full = tf.concat([const(np.array(nb, "int64"), "int64"), tf.stack([tf.cast(a, "int64"), tf.cast(b, "int64")])], 0)
            if op == "diag":
                r = R.MatrixDiag(diagonal=d)
            elif op == "diag3":
                r = R.MatrixDiagV3(diagonal=d, k=k, num_rows=rows, num_cols=cols, padding_value=const(base, dtype))
            elif op == "set":
                r = R.MatrixSetDiag(input=R.Fill(dims=full, value=const(base, dtype)), diagonal=d)
            else:
                r = R.MatrixSetDiagV3(input=R.Fill(dims=full, value=const(base, dtype)), diagonal=d, k=k)
            return [r] + {"": [], "fill": [d], "min": [mn], "use": [add(r, r)]}[shared]
        return build, p.inputs, p.rows()
    for op in ("diag", "diag3", "set", "set3"):
        few = not THOROUGH and op[-1] == "3"  # without the rewriter these become large models
        Fam(s, "eye/%s" % op, dict(op=[op], which=["same", "minab", "minba", "const", "max"], fill=[1, 2, 0], base=[0, 5], k=[0, 1, -1] if op[-1] == "3" else [0], rows=[-1, 6] if op == "diag3" else [-1], cols=[-1, 5] if op == "diag3" else [-1],
                                   dynamic=[0], dtype=[F, "int32"] if few else [F, "int32", "int64", "float64"], batch=[(), (2,)] if few else [(), (2,), (2, 2)], cast=[0] if few else [0, 1],
                                   shared=["", "use"] if few else ["", "fill", "min", "use"], shape_as=["expand", "cast"] if few else ["expand", "cast", "reshape", "pack"]),
            make, depth - 1, (18,) if few else (18, 9), 1, ways=(False,) if few else (False, True))
    for nm, f in (("n", lambda n, m: tf.eye(n)), ("nm", tf.eye), ("mn", lambda n, m: tf.eye(m, n)), ("n2", lambda n, m: tf.eye(n, 2)), ("2n", lambda n, m: tf.eye(2, n)), ("b", lambda n, m: tf.eye(n, batch_shape=[2])), ("bnm", lambda n, m: tf.eye(n, m, batch_shape=[2])),
                  ("bd", lambda n, m: tf.eye(3, batch_shape=tf.stack([n]))), ("i", lambda n, m: tf.eye(n, m, dtype="int32")), ("h", lambda n, m: tf.eye(n, m, dtype="int64"))):
        for dt in ("int32", "int64"):
            if nm in ("2n", "bd") and dt == "int64":
                continue
            for o in (18, 9):
                for how, conv in (("opt", optimized),) + ((("plain", None),) if o == 18 and nm in ("n", "nm") else ()):
                    s.add("tfeye/%s/%s/%s" % (nm, dt, how), f, [([], dt)] * 2, [[np.array(a, dt), np.array(b, dt)] for a, b in itertools.product((1, 2, 4), repeat=2)], o, convert=conv)


def fused_node(op, inputs, attrs):
    """a node TensorFlow's grappler would make"""
    g = tf.compat.v1.get_default_graph()
    nd = node_def_pb2.NodeDef(op=op, name=g.unique_name("fused"))
    a = {}
    for k, v in attrs.items():
        av = attr_value_pb2.AttrValue()
        if isinstance(v, tf.DType):
            av.type = v.as_datatype_enum
        elif isinstance(v, bool):
            av.b = v
        elif isinstance(v, int):
            av.i = v
        elif isinstance(v, float):
            av.f = v
        elif isinstance(v, str):
            av.s = v.encode()
        elif isinstance(v, list) and all(isinstance(x, tf.DType) for x in v):
            av.list.type.extend(x.as_datatype_enum for x in v)
        elif isinstance(v, list) and v and isinstance(v[0], str):
            av.list.s.extend(x.encode() for x in v)
        else:
            av.list.i.extend(v)
        a[k] = av
    types = None
    o = g.create_op(op, inputs, [tf.float32], attrs=a, name=nd.name, compute_device=False)
    return o.outputs[0]


FUSIONS = [["BiasAdd"], ["BiasAdd", "Relu"], ["BiasAdd", "Relu6"], ["BiasAdd", "Elu"], ["BiasAdd", "LeakyRelu"], ["BiasAdd", "Tanh"], ["BiasAdd", "Sigmoid"],
           ["BiasAdd", "Add"], ["BiasAdd", "Add", "Relu"], ["BiasAdd", "Add", "LeakyRelu"], ["FusedBatchNorm"], ["FusedBatchNorm", "Relu"], ["FusedBatchNorm", "Relu6"], ["FusedBatchNorm", "Elu"], ["FusedBatchNorm", "LeakyRelu"],
           ["BiasAdd", "GeluApproximate"], ["BiasAdd", "GeluExact"], ["BiasAdd", "_FusedHardSwish"]]


def fused(s, depth):
    def make(op, ops, alpha, eps, strides, padding, dil, ta, tb, shared):
        p = Params()
        if op == "_FusedMatMul":
            xs, ws, n = ([3, 2] if not ta else [2, 3]), ([2, 4] if not tb else [4, 2]), 4
        elif op == "_FusedConv2D":
            xs, ws, n = [1, 5, 5, 2], [3, 3, 2, 3], 3
        else:
            xs, ws, n = [1, 5, 5, 2], [3, 3, 2, 1], 2
        ix = p.inp(xs, F, mixed(xs, F), mixed(xs, F, 3))
        extra = []
        for o in ops:
            if o == "BiasAdd":
                extra.append(("c", mixed([n], F, 5)))
            elif o == "FusedBatchNorm":
                extra += [("c", mixed([n], F, 1)), ("c", mixed([n], F, 2)), ("c", mixed([n], F, 3)), ("c", np.abs(mixed([n], F, 4)) + np.float32(.3))]
            elif o == "Add":
                extra.append(("same", None))
        if op == "_FusedConv2D" and dil != 1 and strides != 1:
            return None

        def build(*phs):
            x = phs[ix]
            w = const(mixed(ws, F, 7), F)
            plain = (R.MatMul(a=x, b=w, transpose_a=bool(ta), transpose_b=bool(tb)) if op == "_FusedMatMul" else
                     R.Conv2D(input=x, filter=w, strides=[1, strides, strides, 1], padding=padding, dilations=[1, dil, dil, 1]) if op == "_FusedConv2D" else
                     R.DepthwiseConv2dNative(input=x, filter=w, strides=[1, strides, strides, 1], padding=padding, dilations=[1, dil, dil, 1]))
            args = [const(v, F) if kind == "c" else tf.sin(plain) for kind, v in extra]
            attrs = dict(T=tf.float32, num_args=len(args), fused_ops=list(ops), epsilon=float(eps), leakyrelu_alpha=float(alpha))
            if op == "_FusedMatMul":
                attrs.update(transpose_a=bool(ta), transpose_b=bool(tb))
            else:
                attrs.update(strides=[1, strides, strides, 1], padding=padding, data_format="NHWC", dilations=[1, dil, dil, 1])
            if op == "_FusedConv2D":
                attrs.update(use_cudnn_on_gpu=True, explicit_paddings=[], num_host_args=0, TArgs=[tf.float32] * len(args))
            r = fused_node(op, [x, w] + args, attrs)
            r.set_shape(plain.shape)
            return [r] + {"": [], "use": [tf.sin(r)], "two": [add(r, r), tf.sin(r)]}[shared]
        return build, p.inputs, p.rows()
    for op in ("_FusedMatMul", "_FusedConv2D", "_FusedDepthwiseConv2dNative"):
        conv = op != "_FusedMatMul"
        for ops in FUSIONS:
            Fam(s, "fused/%s/%s" % (op, ",".join(ops)), dict(op=[op], ops=[ops], alpha=[0.2, 0.3, 0.], eps=[1e-4, 1e-3, 0.1], strides=[1, 2] if conv else [1], padding=["VALID", "SAME"] if conv else ["VALID"], dil=[1, 2] if conv else [1],
                                                         ta=[0, 1] if not conv else [0], tb=[0, 1] if not conv else [0], shared=["", "use", "two"]), make, depth - 1, (18, 11))


def convpad(s, depth):
    def make(pads, axis, dtype, conv_pad, explicit, strides, dil, dynamic, shape, shared, op, kernel, wdyn):
        p = Params()
        x = mixed([2, 5, 6, 2], F)
        ix = p.inp({"static": [2, 5, 6, 2], "batch": [None, 5, 6, 2], "dyn": dyn(x.shape)}[shape], F, x)
        pv = np.zeros([4, 2], dtype)
        pv[1], pv[2] = pads[:2], pads[2:]
        if axis is not None:
            pv[axis] = [1, 1] if axis == 3 else [1, 0]
        pd = p.operand(pv, dtype, dynamic)
        cin = 4 if axis == 3 else 2
        w = mixed(kernel + [cin, 3], F, 3)
        wv = p.operand(w, F, wdyn)
        if dil != 1 and strides != 1 or conv_pad != "EXPLICIT" and explicit:
            return None
        if conv_pad == "EXPLICIT" and not explicit:
            explicit = [0, 0, 1, 0, 0, 2, 0, 0]

        def build(*phs):
            x = phs[ix]
            q = (R.Pad(input=x, paddings=pd(phs)) if op == "Pad" else R.PadV2(input=x, paddings=pd(phs), constant_values=const(op, F)) if not isinstance(op, str) else R.MirrorPad(input=x, paddings=pd(phs), mode=op))
            kw = dict(explicit_paddings=list(explicit)) if conv_pad == "EXPLICIT" else {}
            r = R.Conv2D(input=q, filter=wv(phs), strides=[1, strides, strides, 1], padding=conv_pad, dilations=[1, dil, dil, 1], **kw)
            return [r] + {"": [], "pad": [q], "use": [tf.sin(q)], "twice": [R.Conv2D(input=q, filter=wv(phs), strides=[1, 1, 1, 1], padding="SAME")]}[shared]
        return build, p.inputs, p.rows()
    Fam(s, "convpad", dict(pads=[(1, 1, 1, 1), (0, 1, 2, 0), (0, 0, 0, 0), (3, 0, 0, 1)], axis=[None, 0, 3], dtype=["int32", "int64"], conv_pad=["VALID", "SAME", "EXPLICIT"], explicit=[None], strides=[1, 2], dil=[1, 2], dynamic=[0, 1],
                           shape=["static", "batch", "dyn"], shared=["", "pad", "use", "twice"], op=["Pad", 0.0, 1.5, "REFLECT", "SYMMETRIC"], kernel=[[3, 3], [1, 2], [2, 1]], wdyn=[0, 1]), make, depth, (18, 10, 11))


def biasadd(s, depth):
    def make(conv, fmt, bias_dyn, order_, shared, strides, padding, op, shape):
        p = Params()
        x = mixed([2, 4, 4, 2], F)
        if fmt == "NCHW" and conv != "conv":
            return None
        ix = p.inp({"static": list(x.shape), "dyn": dyn(x.shape)}[shape], F, x)
        n = {"conv": 4, "back": 4}[conv]
        w = mixed([2, 2, 2, n] if conv == "conv" else [2, 2, n, 2], F, 3)
        b = p.operand(mixed([n], F, 6), F, bias_dyn)
        if fmt == "NCHW" and (padding != "SAME" or strides != 1):
            return None

        def build(*phs):
            x = phs[ix]
            if conv == "conv":
                c = R.Conv2D(input=x, filter=const(w, F), strides=[1, strides, strides, 1], padding=padding)
            else:
                size = 4 * strides if padding == "SAME" else (4 - 1) * strides + 2
                c = R.Conv2DBackpropInput(input_sizes=[2, size, size, n], filter=const(w, F), out_backprop=x, strides=[1, strides, strides, 1], padding=padding)
            r = R.BiasAdd(value=c, bias=b(phs), data_format=fmt) if op == "BiasAdd" else order(order_, add, c, b(phs)) if op == "Add" else order(order_, sub, c, b(phs)) if op == "Sub" else R.BiasAdd(value=tf.nn.relu(c), bias=b(phs))
            return [r] + {"": [], "conv": [c], "use": [tf.sin(c)], "two": [R.BiasAdd(value=c, bias=b(phs) * 2)], "chain": [R.BiasAdd(value=r, bias=b(phs) * 3)]}[shared]
        return build, p.inputs, p.rows()
    for conv in ("conv", "back"):
        Fam(s, "biasadd/%s" % conv, dict(conv=[conv], fmt=["NHWC", "NCHW"], bias_dyn=[0, 1], order_=[0, 1], shared=["", "conv", "use", "two", "chain"], strides=[1, 2], padding=["SAME", "VALID"], op=["BiasAdd", "Add", "Sub", "relu"], shape=["static", "dyn"]),
            make, depth, (18, 10))


def layernorm(s, depth):
    def make(form, rank, max_, vax, keep, xs, means, sub_swap, mul_swap, eps, eps_dyn, scale, scale_dyn, bias, op, shared, shape, dtype, inner):
        p = Params()
        dims = [[3, 3], [3, 3, 3], [2, 3, 3, 3]][rank - 2]
        ix = p.inp({"static": dims, "dyn": dyn(dims), "batch": [None] + dims[1:]}[shape], dtype, mixed(dims, dtype), mixed(dims, dtype, 4) * 3)
        iy = p.inp(dims, dtype, mixed(dims, dtype, 6)) if "y" in xs else None
        sc = p.operand(scale, dtype, scale_dyn)
        bi = p.operand(bias, dtype, scale_dyn)
        ep = p.operand(eps, dtype, eps_dyn)

        def build(*phs):
            x = [phs[iy] if c == "y" else phs[ix] for c in xs]
            m1 = R.Mean(input=x[1], axis=const(np.array(max_, "int32"), "int32"), keep_dims=bool(keep))
            m2 = m1 if means == "one" else R.Mean(input=x[2] if means == "two" else x[2] * 2, axis=const(np.array(max_, "int32"), "int32"), keep_dims=bool(keep))
            d = sub(x[0], m1)
            sq = R.Square(x=d) if inner == "square" else mul(d, d) if inner == "mul" else R.Abs(x=d)
            var = R.Mean(input=sq, axis=const(np.array(vax, "int32"), "int32"), keep_dims=bool(keep))
            rs = R.Rsqrt(x=add1(var, ep(phs)))
            c = order(sub_swap, sub, x[2], m2)
            if form == 0:
                y = order(mul_swap, mul, mul(rs, sc(phs)), c)
            elif form == 1:
                y = order(mul_swap, mul, mul(rs, c), sc(phs))
            else:
                y = order(mul_swap, mul, mul(sc(phs), c), rs)
            y = {"add": add1, "sub": sub, "addv2": add, "bias-": lambda a, b: sub(b, a)}[op](y, bi(phs))
            return [y] + {"": [], "var": [var], "mean": [m1], "rs": [rs], "c": [c]}[shared]
        return build, p.inputs, p.rows()
    a = np.array([1., 2, -0.5])
    for form in (0, 1, 2):
        Fam(s, "layernorm/%d" % form, dict(form=[form], rank=[3, 2, 4], max_=[[2], [-1], [1], [1, 2], [0], [-2]], vax=[[2], [-1], [1], [1, 2]], keep=[1, 0], xs=["xxx", "xxy", "xyx", "yxx", "xyy"], means=["one", "two", "other"], sub_swap=[0, 1], mul_swap=[0, 1],
                                           eps=[np.array(1e-3), np.array(0.5), np.array([0.1]), np.array([0.1, 1., 2.])], eps_dyn=[0, 1], scale=[a, np.array(2.), np.arange(27.).reshape(3, 3, 3) / 9, np.array([[2.], [1], [3]])], scale_dyn=[0, 1],
                                           bias=[a[::-1], np.array(1.), np.array([[2.], [1], [3]])], op=["add", "sub", "addv2", "bias-"], shared=["", "var", "mean", "rs", "c"], shape=["static", "dyn", "batch"], dtype=[F, "float64", "float16"], inner=["square", "mul", "abs"]),
            make, depth, (18, 10), tol=(2e-3, 2e-3))


def randoms(s, depth):
    """results that do not depend on the numbers drawn: scale 0, or differences of what must be the same draw"""
    def make(kind, shape_kind, mulc, addc, mul_swap, add_swap, post, addop, like_dtype, sub_form):
        p = Params()
        ix = p.inp([2, 3] if shape_kind != "dyn" else [None, None], F, mixed([2, 3], F))
        z = np.array(mulc) if mulc is not None else np.array(0.)
        if post == "" and np.any(z != 0):
            return None

        def build(*phs):
            sh = {"const": const([2, 3], "int32"), "shape": R.Shape(input=phs[ix]), "dyn": R.Shape(input=phs[ix]), "slice": tf.concat([R.Shape(input=phs[ix])[:1], [3]], 0)}[shape_kind]
            u = {"uniform": R.RandomUniform, "normal": R.RandomStandardNormal, "trunc": R.TruncatedNormal}[kind](shape=sh, dtype=tf.as_dtype(like_dtype))
            c = const(z, like_dtype)
            if sub_form == "sub" and z.ndim == 0:
                c = sub(const(z + 1, like_dtype), const(1., like_dtype))
            elif sub_form == "sub5":
                c = sub(const(z + 5, like_dtype), const(5., like_dtype))
            elif sub_form == "input":
                c = tf.reduce_sum(tf.cast(phs[ix], like_dtype)) * 0 + const(z, like_dtype)
            m = order(mul_swap, mul, u, c)
            r = order(add_swap, {"add": add1, "addv2": add, "sub": sub}[addop], m, const(np.array(addc), like_dtype))
            if post == "":
                return [r]
            back = {"add": lambda v: sub(v, const(np.array(addc), like_dtype)), "addv2": lambda v: sub(v, const(np.array(addc), like_dtype)), "sub": lambda v: add(v, const(np.array(addc), like_dtype))}[addop]
            if addop == "sub" and add_swap:
                return None
            d = {"u": u, "m": m, "r": r}[post]
            if post == "r":
                q = tf.identity(tf.identity(r))
                return [sub(q, r), tf.identity(r) - q]
            if post == "m":
                return [sub(back(r), m)]
            return [sub(back(r), mul(u, c))]
        return build, p.inputs, p.rows()
    for kind in ("uniform", "normal", "trunc"):
        Fam(s, "random/%s" % kind, dict(kind=[kind], shape_kind=["const", "shape", "dyn", "slice"], mulc=[None, [0., 0., 0.], [[0.], [0.]], 2., -3., [1., 2., 3.]], addc=[1.5, [1., 2., 3.], [[1.], [2.]], -2., 5.], mul_swap=[0, 1], add_swap=[0, 1], post=["", "u", "m", "r"],
                                        addop=["add", "addv2", "sub"], like_dtype=[F, "float64"], sub_form=["", "sub", "sub5", "input"]), make, depth, (18, 10), tol=(1e-4, 1e-4))

    def ids(kind, depth_, tap, op, shape_kind):
        p = Params()
        ix = p.inp([2, 3], F, mixed([2, 3], F))

        def build(*phs):
            sh = const([2, 3], "int32") if shape_kind == "const" else R.Shape(input=phs[ix])
            u = {"uniform": R.RandomUniform, "normal": R.RandomStandardNormal}[kind](shape=sh, dtype=tf.float32)
            chain = [u]
            for _ in range(depth_):
                chain.append(op(chain[-1]))
            return [sub(chain[-1], chain[tap])]
        return (build, p.inputs, p.rows()) if tap <= depth_ else None

    def ident(x):
        return R.Identity(input=x)

    def stopgrad(x):
        return R.StopGradient(input=x)
    for kind in ("normal", "uniform"):
        Fam(s, "randomid/%s" % kind, dict(kind=[kind], depth_=[2, 1, 3, 4], tap=[0, 1, 2, 3], op=[ident, stopgrad], shape_kind=["const", "shape"]), ids, 3, (18,))


def dropout(s, depth):
    def make(form, cmp, cmp_swap, rate, scale, scale_form, mul_swap, mul2_swap, cast, shared, shape):
        """rates for which every draw gives the same mask"""
        if cmp == "floor" and rate % 1:
            return None
        p = Params()
        x = mixed([2, 3], F)
        ix = p.inp([2, 3] if shape != "dyn" else [None, None], F, x)

        def build(*phs):
            x = phs[ix]
            u = R.RandomUniform(shape=R.Shape(input=x) if shape != "const" else [2, 3], dtype=tf.float32)
            if cmp == "floor":
                mask = R.Floor(x=order(cmp_swap, add1, const(rate, F), u))
            else:
                mask = R.Cast(x=order(cmp_swap, lambda a, b: cmp(x=a, y=b), u, const(rate, F)), DstT=tf.float32)
            a = {"mul": lambda: order(mul2_swap, mul, x, const(scale, F)), "div": lambda: div(x, const(scale, F)), "none": lambda: x, "vec": lambda: mul(x, const([scale] * 3, F)), "xx": lambda: mul(x, x)}[scale_form]()
            r = order(mul_swap, mul, a, mask)
            return [r] + {"": [], "mask": [mask], "scaled": [a], "use": [tf.sin(a)]}[shared]
        return build, p.inputs, p.rows()
    Fam(s, "dropout", dict(form=[0], cmp=[R.GreaterEqual, R.LessEqual, "floor"], cmp_swap=[0, 1], rate=[0., -0.5, 1.5, 2.], scale=[1., 2., -1., 1 / 1.5, -2.], scale_form=["mul", "div", "none", "vec", "xx"], mul_swap=[0, 1], mul2_swap=[0, 1], cast=[0],
                           shared=["", "mask", "scaled", "use"], shape=["like", "const", "dyn"]), make, depth + 1, (18, 12))


def gemm(s, depth):
    def make(op, addop, alpha, beta, alpha_dyn, ta, tb, cshape, cdyn, add_swap, a_swap, b_swap, rank, dtype, shared, shape, cxx):
        p = Params()
        n, k, m = 3, 2, 3
        adims, bdims = ([n, k] if not ta else [k, n]), ([k, m] if not tb else [m, k])
        if rank == 3:
            adims = [2] + adims
        ia = p.inp(adims if shape == "static" else dyn(adims), dtype, mixed(adims, dtype))
        ib = p.inp(bdims if shape != "dyn" else dyn(bdims), dtype, mixed(bdims, dtype, 4))
        c = p.operand(mixed(list(cshape), dtype, 9), dtype, cdyn)
        al = p.operand(alpha, dtype, alpha_dyn) if alpha is not None else None
        be = p.operand(beta, dtype, alpha_dyn) if beta is not None else None

        def build(*phs):
            a, b = phs[ia], phs[ib]
            if rank == 3:
                mm = R.BatchMatMulV2(x=a, y=b, adj_x=bool(ta), adj_y=bool(tb))
            else:
                mm = R.MatMul(a=a, b=b, transpose_a=bool(ta), transpose_b=bool(tb))
            t = mm if al is None else order(a_swap, mul, al(phs), mm)
            u = c(phs) if not cxx else mm
            if be is not None:
                u = order(b_swap, mul, be(phs), u)
            r = R.BiasAdd(value=t, bias=u) if addop == "bias" else order(add_swap, {"add": add1, "addv2": add, "sub": sub}[addop], t, u)
            return [r] + {"": [], "mm": [mm], "t": [t], "u": [u], "use": [tf.sin(mm)]}[shared]
        return build, p.inputs, p.rows()
    two = np.array(2.)
    for al, be in itertools.product((None, two), (None, np.array(0.5))):
        Fam(s, "gemm/%d%d" % (al is not None, be is not None),
            dict(op=[0], addop=["addv2", "add", "sub", "bias"], alpha=[al] + ([np.array([2.]), np.array([[2.]]), np.array([1., 2, 3]), np.array([[[3.]]]), np.array([[1.], [2], [3]]), np.array(0.), np.array(-1.)] if al is not None else []),
                 beta=[be] + ([np.array([2.]), np.array([1., 2, 3]), np.array([[2.]]), np.array([[1.], [2], [3]]), np.array(0.)] if be is not None else []), alpha_dyn=[0, 1], ta=[0, 1], tb=[0, 1],
                 cshape=[(3,), (3, 3), (), (1,), (1, 3), (3, 1), (1, 1), (2, 3, 3), (1, 3, 3)], cdyn=[0, 1], add_swap=[0, 1], a_swap=[0, 1], b_swap=[0, 1], rank=[2, 3], dtype=[F, "float64", "int32"], shared=["", "mm", "t", "u", "use"], shape=["static", "half", "dyn"], cxx=[0, 1]),
            make, depth, (18, 7, 12))


def dilations(s, depth):
    """SpaceToBatchND - convolution - BatchToSpaceND becomes a dilated convolution"""
    def make(op, block, block2, pads, crops, stride, dil, padding, shared, pads_in, crops_in, shape):
        nd = {"conv3": 3, "conv1": 1}.get(op, 2)
        sp = [5, 4, 5][:nd]
        block, pads = (block * 3)[:min(nd, len(block))], (pads * 3)[:min(nd, len(block))]
        crops = (crops * 3)[:len(block)]
        block2 = (block2 * 3)[:len(block)] if block2 else block
        dims = [1] + sp + [2]
        pads = [(a, b + (-(sp[k] + a + b)) % block[k]) for k, (a, b) in enumerate(pads)]
        x = mixed(dims, F)
        p = Params()
        ix = p.inp({"static": dims, "batch": [None] + dims[1:], "dyn": [None] * (nd + 1) + [2]}[shape], F, x)
        ip = p.inp([len(block), 2], "int32", np.array(pads, np.int32)) if pads_in else None
        ic = p.inp([len(block), 2], "int32", np.array(crops, np.int32)) if crops_in else None
        k = mixed([2] * nd + [2, 2], F, 3)

        def build(*phs):
            h = phs[ix]
            s2b = R.SpaceToBatchND(input=h, block_shape=block, paddings=phs[ip] if pads_in else pads)
            t = s2b
            if op == "conv1":
                t = R.ExpandDims(input=t, axis=1)
                c = R.Conv2D(input=t, filter=k[None], strides=[1, 1, stride, 1], padding=padding, dilations=[1, 1, dil, 1])
                y = R.Squeeze(input=c, axis=[1])
            elif op == "conv3":
                c = y = R.Conv3D(input=t, filter=k, strides=[1] + [stride] * 3 + [1], padding=padding, dilations=[1] + [dil] * 3 + [1])
            elif op == "dw":
                c = y = R.DepthwiseConv2dNative(input=t, filter=k, strides=[1, stride, stride, 1], padding=padding, dilations=[1, dil, dil, 1])
            else:
                c = y = R.Conv2D(input=t, filter=k, strides=[1, stride, stride, 1], padding=padding, dilations=[1, dil, dil, 1])
            r = R.BatchToSpaceND(input=y, block_shape=block2, crops=phs[ic] if crops_in else crops)
            return [r] + {"": [], "conv": [tf.sin(c)], "y": [tf.sin(y)], "s2b": [tf.sin(s2b)], "out": [c], "expand": [tf.sin(t)], "twice": [R.BatchToSpaceND(input=y, block_shape=block2, crops=crops)]}[shared]
        return build, p.inputs, p.rows()
    for op in ("conv", "dw", "conv3", "conv1"):
        Fam(s, "dilate/" + op,
            dict(op=[op], block=[[2, 2, 2], [2, 3, 2], [3, 1, 1], [1, 1, 1], [3], [2]], block2=[None, [2, 1, 1], [1, 2, 2]], pads=[[(0, 0)], [(1, 0)], [(1, 1)], [(0, 2)], [(2, 0)], [(1, 0), (0, 1)]],
                 crops=[[(0, 0)], [(0, 1)], [(1, 0)], [(0, 2)], [(1, 1)], [(0, 1), (0, 0)]], stride=[1, 2], dil=[1, 2], padding=["VALID", "SAME"], shared=["", "conv", "y", "s2b", "out", "expand", "twice"], pads_in=[0, 1], crops_in=[0, 1], shape=["static", "batch", "dyn"]),
            make, depth if THOROUGH or op == "conv" else 1, (18, 10))
    # what TensorFlow's own functions emit
    for shape, pad, rate, ks in itertools.product(([1, 6, 5, 2], [None, 6, 5, 2], [None, None, None, 2]), ("SAME", "VALID"), (2, 3, [1, 2], [3, 2]) if THOROUGH else (2, [3, 2]), (1, 2, 3) if THOROUGH else (2, 3)):
        rates = rate if isinstance(rate, list) else [rate, rate]
        x, k = mixed([1, 6, 5, 2], F), mixed([ks, ks, 2, 1], F, 3)
        for direct in (False, True) if THOROUGH else (False,):
            e = "/%s/%s/%s/%d%s" % (lab([d or "u" for d in shape]), pad, lab(rates), ks, "/direct" if direct else "")
            for o in (18, 10) if THOROUGH else (18,):
                s.add("dilate/tfdw" + e, lambda x, k=k, p=pad, r=rates: tf.nn.depthwise_conv2d(x, k, [1, 1, 1, 1], p, dilations=r), [(shape, F)], [[x]], o, direct=direct)
                s.add("dilate/tfw" + e, lambda x, k=k, p=pad, r=rates: v1.nn.with_space_to_batch(x, r, p, lambda q, num_spatial_dims, padding, k=k: tf.nn.conv2d(q, k, 1, padding), filter_shape=k.shape), [(shape, F)], [[x]], o, direct=direct)
                if not isinstance(rate, list):
                    s.add("dilate/tfatrous" + e, lambda x, k=k, p=pad, r=rate: tf.nn.atrous_conv2d(x, k, r, p), [(shape, F)], [[x]], o, direct=direct)


def folds(s, thorough):
    """operators on constants, folded by the converter itself"""
    def one(name, f, o=18, vals=None):
        for direct in (False, True) if thorough else (True,):
            s.add("fold/%s%s" % (name, "/direct" if direct else ""), f, [([2], F)], [[np.array([1., 2.], F)]], o, direct=direct)

    def both(x, c):
        """the folded constant as it is, and in use"""
        return [c, tf.cast(c, F) * 1.5 + tf.reduce_sum(x)] if c.dtype != tf.bool else [c, tf.cast(c, F) + tf.reduce_sum(x)]
    types = ["int32", "int64", F, "float64", "float16", "int8", "uint8", "int16"]
    vals = [(0, 3), (100, 100), (-7, 2), ([1, 2, 3], 2), ([[1], [120]], [3, 100]), (2 ** 31 - 1, 1), ([], 1), (-128, 1)]
    for dt in types:
        for k, (a, b) in enumerate(vals):
            try:
                a, b = np.array(a).astype(dt), np.array(b).astype(dt)
            except OverflowError:
                continue
            for nm, f in (("add", add1), ("addv2", add), ("sub", sub), ("mul", mul), ("less", tf.less), ("ge", tf.greater_equal), ("floordiv", lambda p, q: R.FloorDiv(x=p, y=q)), ("floormod", lambda p, q: R.FloorMod(x=p, y=q)),
                          ("max", tf.maximum), ("eq", tf.equal), ("truediv", tf.truediv), ("pow", tf.pow)):
                if nm in ("floordiv", "floormod", "truediv") and np.any(b == 0) or nm == "pow" and (np.any(a > 3) or np.any(b > 3) or np.any(b < 0)):
                    continue
                one("%s/%s/%d" % (nm, dt, k), lambda x, a=a, b=b, f=f, dt=dt: both(x, f(const(a, dt), const(b, dt))))
        for k, v in enumerate(([1, 4, 9], 2, [[0, 1]], [], [-1])):
            v = np.array(v).astype(dt)
            if dt in (F, "float64", "float16"):
                for nm, f in (("sqrt", tf.sqrt), ("rsqrt", tf.math.rsqrt), ("exp", tf.exp if dt != "float16" else tf.negative), ("round", tf.round), ("floor", tf.floor)):
                    one("%s/%s/%d" % (nm, dt, k), lambda x, v=v, f=f, dt=dt: both(x, f(const(v, dt))))
            for to in types + ["bool"]:
                if v.dtype.kind == "i" and np.any(v < 0) and to == "uint8":
                    pass
                one("cast/%s/%s/%d" % (dt, to, k), lambda x, v=v, dt=dt, to=to: both(x, R.Cast(x=const(v, dt), DstT=to)))
        if dt in ("int32", "int64", F, "float64", "float16"):
            for k, (a, b, d) in enumerate(((0, 5, 1), (5, 0, -2), (0, 0, 1), (1, 10, 4), (-3, 3, 2), (0.5, 3, 0.75), (0, 1, 0.1), (3, 2.5, -0.25), (0, 100, 7))):
                if dt[0] == "i" and any(isinstance(q, float) for q in (a, b, d)):
                    continue
                if dt == "float16":
                    continue
                one("range/%s/%d" % (dt, k), lambda x, a=a, b=b, d=d, dt=dt: both(x, R.Range(start=const(a, dt), limit=const(b, dt), delta=const(d, dt))))
    for dt in ("float32", "int32", "int64"):
        for it in ("int32", "int64"):
            for ax in (0, 1, -1, -2):
                one("concat/%s/%s/%d" % (dt, it, ax), lambda x, dt=dt, it=it, ax=ax: both(x, R.ConcatV2(values=[const([[1, 2]], dt), const([[3, 4]], dt), const([[5, 5]], dt)], axis=const(ax, it))))
            for ax in (0, -1):
                one("concat1/%s/%s/%d" % (dt, it, ax), lambda x, dt=dt, it=it, ax=ax: both(x, R.ConcatV2(values=[const([1, 2], dt), const([], dt), const([7], dt)], axis=const(ax, it))))
        for ax in (0, 1, 2, -1, -2, -3):
            one("pack/%s/%d" % (dt, ax), lambda x, dt=dt, ax=ax: both(x, R.Pack(values=[const([[1, 2]], dt), const([[3, 4]], dt)], axis=ax)))
        for n in (1, 2, 3):
            one("packs/%s/%d" % (dt, n), lambda x, dt=dt, n=n: both(x, R.Pack(values=[const(k, dt) for k in range(n)], axis=0)))
        for k, (a, b) in enumerate((([1, 2, 3, 4], [2]), ([4, 3, 2, 1], [2]), ([3, 1, 3, 1, 2], [2]), ([5, 5, 1], []), ([], [1]), ([1, 2], [1, 2]))):
            for it in ("int32", "int64"):
                for w in (0, 1):
                    one("listdiff/%s/%s/%d/%d" % (dt, it, k, w), lambda x, dt=dt, it=it, a=a, b=b, w=w: both(x, R.ListDiff(x=const(a, dt), y=const(b, dt), out_idx=tf.as_dtype(it))[w]))
                one("listdiff2/%s/%s/%d" % (dt, it, k), lambda x, dt=dt, it=it, a=a, b=b: [q for w in (0, 1) for q in both(x, R.ListDiff(x=const(a, dt), y=const(b, dt), out_idx=tf.as_dtype(it))[w])])
    chain = {"a": lambda: add1(const([1, 2], "int32"), const(3, "int32")), "b": lambda: R.Pack(values=[add1(const(1, "int32"), const(2, "int32")), R.Cast(x=const(2.9, F), DstT="int32")], axis=0),
             "c": lambda: mul(R.Range(start=0, limit=sub(const(5, "int32"), const(2, "int32")), delta=1), const(2, "int32")), "d": lambda: R.ConcatV2(values=[R.Range(start=0, limit=3, delta=1), [7]], axis=0)}
    for (ka, fa), (kb, fb) in itertools.product(chain.items(), repeat=2):
        one("chain/%s%s" % (ka, kb), lambda x, fa=fa, fb=fb: both(x, fa()) + both(x, fb()) + both(x, R.ConcatV2(values=[fa(), fb()], axis=0)))


def cases(tier):
    global THOROUGH
    s = Suite()
    THOROUGH = thorough = tier == "thorough"
    depth = 3 if thorough else 2
    thresholded(s, depth)
    leaky(s, depth)
    flatten(s, depth)
    transpose(s, depth)
    eye(s, depth)
    fused(s, depth)
    convpad(s, depth)
    biasadd(s, depth)
    layernorm(s, depth)
    randoms(s, depth)
    dropout(s, depth)
    gemm(s, depth)
    dilations(s, depth)
    folds(s, thorough)
    return s.out
