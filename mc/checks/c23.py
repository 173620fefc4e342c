"""C23: converted TFLite models compute what the TFLite interpreter computes."""
import itertools

import numpy as np

from mc import tflcase
from mc.tfcase import mixed, shp
from mc.tflcase import S, make_case, run_group, group_key, setup  # noqa: F401

ID = "C23"
LEVEL = "exploration"
GROUP = 12
TECHNIQUE = "bounded-exhaustive exploration of TFLite operators x options x shapes x types, each model built operator by operator; the TFLite interpreter is the reference model"
RULE = ("one model per point of the bounded option/shape/type space of each TFLite operator (static and unknown shapes, float and quantized); every model is converted by the code in /repo, "
        "run in onnxruntime on its whole feed alphabet and compared with the interpreter; distinct = distinct emitted operator sequences")
ASSUMPTIONS = ["the TFLite interpreter (builtin kernels, no delegates) and onnxruntime CPU kernels are the references",
               "float results are compared within rtol 1e-4 / atol 1e-5; quantized results within one quantization step"]

ACTS = {"none": 0, "relu": 1, "n1to1": 2, "relu6": 3}        # the arithmetic and convolution kernels ignore a fused tanh
F32 = "float32"


class Suite:
    def __init__(self, opset=18):
        self.out = []
        self.ids = set()
        self.opset = opset

    def add(self, cid, build, inputs, feeds, **kw):
        opset = self.opset
        cid = "%s%s%s/o%d" % (cid, "/dyn" if kw.get("dyn") else "", "/deq" if kw.get("dequantize") else "", opset)
        assert cid not in self.ids, cid
        self.ids.add(cid)
        self.out.append(make_case(cid, build, inputs, feeds, opset, **kw))


def one(op, opts=None, outs=None, nout=1, consts=(), **attrs):
    """build function: op(inputs..., consts...)"""
    def build(mb, *ts):
        ins = list(ts) + [c if isinstance(c, int) and c == -1 else mb.const(c) for c in consts]
        return mb.op(op, ins, outs or [F32] * nout, opts, **attrs)
    return build


def feeds_for(shapes, dtypes, n=1, pos=False):
    out = []
    for q in range(n):
        f = []
        for i, (s, d) in enumerate(zip(shapes, dtypes)):
            a = mixed(s, d, q * 3 + i)
            if pos:
                a = (np.abs(a) + (0.25 if a.dtype.kind == "f" else 1)).astype(d)
            f.append(a)
        out.append(f)
    return out


def unary(s, tier):
    shapes = [[], [5], [2, 3]] if tier == "quick" else [[], [5], [2, 3], [2, 3, 2], [1, 2, 2, 3]]
    ops = ["ABS", "CEIL", "COS", "ELU", "EXP", "FLOOR", "HARD_SWISH", "LOG", "LOGISTIC", "NEG", "RELU", "RELU6", "RELU_N1_TO_1", "RELU_0_TO_1", "ROUND", "RSQRT", "SIN", "SQRT", "SQUARE",
           "TANH", "ZEROS_LIKE", "SIGN", "LOG_SOFTMAX"]
    for op in ops:
        for sh in shapes:
            for dyn in (False, True):
                s.add("u/%s/%s" % (op, shp(sh)), one(op), [(sh, F32)], feeds_for([sh], [F32], 2, op in ("LOG", "RSQRT", "SQRT")), dyn=dyn)
    for op in ("ABS", "NEG", "ZEROS_LIKE", "SIGN", "SQUARE"):
        for dt in ("int32", "int64"):
            s.add("u/%s/%s" % (op, dt), one(op, outs=[dt]), [([2, 3], dt)], feeds_for([[2, 3]], [dt]))
    for ap in (False, True):
        s.add("gelu/%d" % ap, one("GELU", "GeluOptions", approximate=ap), [([2, 3], F32)], feeds_for([[2, 3]], [F32]))
    for a in (0.0, 0.1, 1.0, 2.0, -0.5):
        for sh in shapes:
            s.add("leaky/%s/%s" % (a, shp(sh)), one("LEAKY_RELU", "LeakyReluOptions", alpha=a), [(sh, F32)], feeds_for([sh], [F32], 2))
    for sh in ([3], [2, 3], [2, 2, 3], [1, 2, 2, 3]):
        for al in ([3], [1], [1] * (len(sh) - 1) + [3], sh[1:]):
            if not al:
                continue
            for cst in (0, 1):
                cid = "prelu/%s/%s/c%d" % (shp(sh), shp(al), cst)
                if cid + "/o%d" % s.opset in s.ids:
                    continue
                av = mixed(al, F32, 4)
                if cst:
                    s.add(cid, one("PRELU", consts=[av]), [(sh, F32)], feeds_for([sh], [F32], 2))
                else:
                    s.add(cid, one("PRELU"), [(sh, F32), (al, F32)], feeds_for([sh, al], [F32, F32], 2))
    for act in ("none",):
        for sh in ([3], [2, 3], [2, 2, 3], [1, 2, 2, 3]):
            s.add("l2norm/%s/%s" % (act, shp(sh)), one("L2_NORMALIZATION", "L2NormOptions", fusedActivationFunction=ACTS[act]), [(sh, F32)], feeds_for([sh], [F32], 2))
    for beta in (1.0, 0.5, 2.0):
        for sh in ([3], [2, 3], [2, 2, 3], [1, 2, 2, 3]):
            for dyn in (False, True):
                s.add("softmax/%s/%s" % (beta, shp(sh)), one("SOFTMAX", "SoftmaxOptions", beta=beta), [(sh, F32)], feeds_for([sh], [F32], 2), dyn=dyn)
    s.add("not", one("LOGICAL_NOT", outs=["bool"]), [([2, 3], "bool")], feeds_for([[2, 3]], ["bool"]))
    dts = ["float32", "int32", "int64", "bool", "uint8", "int8", "int16", "float16"]
    for a, b in itertools.product(dts, dts):
        s.add("cast/%s/%s" % (a, b), one("CAST", "CastOptions", [b], inDataType=tflcase.TT[a], outDataType=tflcase.TT[b]), [([2, 3], a)], feeds_for([[2, 3]], [a], pos=True))
    s.add("cast/noopt", one("CAST", None, ["int32"]), [([2, 3], F32)], feeds_for([[2, 3]], [F32]))
    for sh in ([4], [2, 3]):
        for dt in ("int32", "int64"):
            for dyn in (False, True):
                s.add("shape/%s/%s" % (shp(sh), dt), one("SHAPE", "ShapeOptions", [dt], outType=tflcase.TT[dt]), [(sh, F32)], feeds_for([sh], [F32]), dyn=dyn)
        s.add("rank/%s" % shp(sh), one("RANK", "RankOptions", ["int32"]), [(sh, F32)], feeds_for([sh], [F32]))


BOPT = {"ADD": "AddOptions", "SUB": "SubOptions", "MUL": "MulOptions", "DIV": "DivOptions", "MAXIMUM": "MaximumMinimumOptions", "MINIMUM": "MaximumMinimumOptions", "POW": "PowOptions",
        "SQUARED_DIFFERENCE": "SquaredDifferenceOptions", "FLOOR_DIV": "FloorDivOptions", "FLOOR_MOD": "FloorModOptions", "EQUAL": "EqualOptions", "NOT_EQUAL": "NotEqualOptions",
        "LESS": "LessOptions", "LESS_EQUAL": "LessEqualOptions", "GREATER": "GreaterOptions", "GREATER_EQUAL": "GreaterEqualOptions", "LOGICAL_AND": "LogicalAndOptions", "LOGICAL_OR": "LogicalOrOptions"}


def binary(s, tier):
    pairs = [([3], [3]), ([2, 3], [3]), ([2, 3], [2, 1]), ([], [2, 3]), ([2, 1, 3], [4, 1])]
    for op in ("ADD", "SUB", "MUL", "DIV"):
        for act, av in ACTS.items():
            for a, b in pairs:
                s.add("b/%s/%s/%s-%s" % (op, act, shp(a), shp(b)), one(op, BOPT[op], fusedActivationFunction=av), [(a, F32), (b, F32)], [[mixed(a, F32, 1), mixed(b, F32, 4) + 0.3]])
            s.add("b/%s/%s/const" % (op, act), one(op, BOPT[op], consts=[mixed([3], F32, 4) + 0.3], fusedActivationFunction=av), [([2, 3], F32)], feeds_for([[2, 3]], [F32], 2))
            s.add("b/%s/%s/same" % (op, act), lambda mb, x, op=op, av=av: mb.op(op, [x, x], [F32], BOPT[op], fusedActivationFunction=av), [([2, 3], F32)], feeds_for([[2, 3]], [F32], 2))
        for dt in ("int32", "int64"):
            for act in ("none", "relu", "relu6"):
                s.add("b/%s/%s/%s" % (op, act, dt), one(op, BOPT[op], [dt], fusedActivationFunction=ACTS[act]), [([2, 3], dt), ([3], dt)],
                      [[mixed([2, 3], dt, 1), np.array([2, -3, 5], dt)]])
    for op in ("MAXIMUM", "MINIMUM", "SQUARED_DIFFERENCE", "EQUAL", "NOT_EQUAL", "LESS", "LESS_EQUAL", "GREATER", "GREATER_EQUAL", "FLOOR_DIV", "FLOOR_MOD", "POW", "ATAN2"):
        cmp = op in ("EQUAL", "NOT_EQUAL", "LESS", "LESS_EQUAL", "GREATER", "GREATER_EQUAL")
        for dt in (F32, "int32", "int64"):
            for a, b in pairs:
                if op == "ATAN2" and a != b:
                    continue
                if op == "POW":
                    fd = [[np.abs(mixed(a, dt, 1)) % 5, np.abs(mixed(b, dt, 4)) % 4]]
                    fd = [[x.astype(dt) for x in fd[0]]]
                elif op in ("FLOOR_DIV", "FLOOR_MOD"):
                    y = mixed(b, dt, 4)
                    fd = [[mixed(a, dt, 1), np.where(y == 0, 3, y).astype(dt)], [mixed(a, dt, 2), np.where(y == 0, 3, -y).astype(dt)]]
                else:
                    x, y = mixed(a, dt, 1), mixed(b, dt, 4)
                    fd = [[x, y], [np.zeros(a, dt), np.zeros(b, dt)]] if op != "ATAN2" else [[x, y]]
                for dyn in (False, True):
                    s.add("b/%s/%s/%s-%s" % (op, dt, shp(a), shp(b)), one(op, BOPT.get(op), ["bool" if cmp else dt]), [(a, dt), (b, dt)], fd, dyn=dyn)
    for op in ("LOGICAL_AND", "LOGICAL_OR"):
        for a, b in pairs:
            s.add("b/%s/%s-%s" % (op, shp(a), shp(b)), one(op, BOPT[op], ["bool"]), [(a, "bool"), (b, "bool")], feeds_for([a, b], ["bool"] * 2))
    for dt in ("int32", "uint8", "int8", "int16", "uint32"):
        s.add("b/BITWISE_XOR/%s" % dt, one("BITWISE_XOR", None, [dt]), [([2, 3], dt), ([3], dt)], feeds_for([[2, 3], [3]], [dt] * 2))
        s.add("b/RIGHT_SHIFT/%s" % dt, one("RIGHT_SHIFT", None, [dt]), [([2, 3], dt), ([2, 3], dt)], [[mixed([2, 3], dt, 1), (np.arange(6).reshape(2, 3) % 4).astype(dt)]])
    for n in (1, 2, 3):
        for dt in (F32, "int32"):
            s.add("addn/%d/%s" % (n, dt), one("ADD_N", "AddNOptions", [dt]), [([2, 3], dt)] * n, feeds_for([[2, 3]] * n, [dt] * n))
    # chains: fused activations on tensors with more readers
    for a1, a2 in itertools.product(ACTS, ACTS):
        def chain(mb, x, y, a1=a1, a2=a2):
            p = mb.op("ADD", [x, y], [F32], "AddOptions", fusedActivationFunction=ACTS[a1])[0]
            q = mb.op("MUL", [p, p], [F32], "MulOptions", fusedActivationFunction=ACTS[a2])[0]
            r = mb.op("SUB", [q, p], [F32], "SubOptions")[0]
            return [p, r]
        s.add("chain/%s-%s" % (a1, a2), chain, [([2, 3], F32), ([3], F32)], feeds_for([[2, 3], [3]], [F32] * 2, 2))


def reductions(s, tier):
    for op in ("SUM", "MEAN", "REDUCE_MAX", "REDUCE_MIN", "REDUCE_PROD", "REDUCE_ANY", "REDUCE_ALL"):
        dts = ["bool"] if op in ("REDUCE_ANY", "REDUCE_ALL") else [F32, "int32", "int64"]
        for dt in dts:
            for sh in ([4], [2, 3], [2, 3, 2]):
                axes = [list(c) for k in range(1, len(sh) + 1) for c in itertools.combinations(range(len(sh)), k)] + [[-1], 0]
                if len(sh) > 1:
                    axes.append([-1, 0])
                for ax, kd in itertools.product(axes, (False, True)):
                    for dyn in (False, True):
                        if dyn and dt != dts[0]:
                            continue
                        s.add("r/%s/%s/%s/a%s/k%d" % (op, dt, shp(sh), str(ax).replace(" ", ""), kd), one(op, "ReducerOptions", [dt], consts=[np.array(ax, np.int32)], keepDims=kd),
                              [(sh, dt)], feeds_for([sh], [dt]), dyn=dyn)
    for op, o in (("ARG_MAX", "ArgMaxOptions"), ("ARG_MIN", "ArgMinOptions")):
        for dt, ot, sh in itertools.product((F32, "int32"), ("int32", "int64"), ([4], [2, 3], [2, 3, 2])):
            for ax in range(-len(sh), len(sh)):
                for adt in ("int32", "int64"):
                    s.add("arg/%s/%s/%s/%s/a%d/%s" % (op, dt, ot, shp(sh), ax, adt), one(op, o, [ot], consts=[np.array(ax, adt)], outputType=tflcase.TT[ot]), [(sh, dt)], feeds_for([sh], [dt], 2))
    for ex, rev, dt in itertools.product((False, True), (False, True), (F32, "int32")):
        for sh in ([4], [2, 3], [2, 3, 2]):
            for ax in range(-len(sh), len(sh)):
                s.add("cumsum/%s/%s/a%d/e%d/r%d" % (dt, shp(sh), ax, ex, rev), one("CUMSUM", "CumsumOptions", [dt], consts=[np.array(ax, np.int32)], exclusive=ex, reverse=rev),
                      [(sh, dt)], feeds_for([sh], [dt]))
    for op in ("MAX", "MIN", "PROD", "SUM"):
        for ids in ([0, 0, 1, 1], [0, 2, 0, 2], [1, 1, 1, 1]):
            for n in (2, 3):
                if max(ids) >= n:
                    continue
                for sh in ([4], [4, 2]):
                    s.add("useg/%s/%s/%d/%s" % (op, "".join(map(str, ids)), n, shp(sh)), one("UNSORTED_SEGMENT_" + op, "UnsortedSegment%sOptions" % op.capitalize(),
                          consts=[np.array(ids, np.int32), np.array(n, np.int32)]), [(sh, F32)], feeds_for([sh], [F32]))
    for ids in ([0, 0, 1, 1], [0, 1, 2, 3], [0, 0, 2, 2]):
        s.add("segsum/%s" % "".join(map(str, ids)), one("SEGMENT_SUM", "SegmentSumOptions", consts=[np.array(ids, np.int32)]), [([4, 2], F32)], feeds_for([[4, 2]], [F32]))


def shapes(s, tier):
    sh = [2, 3, 2]
    f = feeds_for([sh], [F32])
    for new in ([12], [3, 4], [-1], [2, -1], [1, 2, 6, 1], [-1, 3, 2]):
        for how in ("input", "attr", "both"):
            for dyn in (False, True):
                kw = {} if how == "input" else {"newShape": new}
                s.add("reshape/%s/%s" % ("x".join(map(str, new)), how), one("RESHAPE", "ReshapeOptions" if kw else None, consts=[] if how == "attr" else [np.array(new, np.int32)], **kw), [(sh, F32)], f, dyn=dyn)
    s.add("reshape/scalar/input", one("RESHAPE", consts=[np.array([], np.int32)]), [([1], F32)], feeds_for([[1]], [F32]))
    s.add("reshape/scalar/attr", one("RESHAPE", "ReshapeOptions", newShape=[]), [([1], F32)], feeds_for([[1]], [F32]))
    s.add("reshape/rt", one("RESHAPE"), [(sh, F32), ([2], "int32")], [[f[0][0], np.array([4, 3], "int32")], [f[0][0], np.array([-1, 6], "int32")]])
    for qs, dims in (([1, 3, 1], [0]), ([1, 3, 1], [2]), ([1, 3, 1], [0, 2]), ([1, 3, 1], [-1]), ([1, 3, 1], []), ([2, 1], [1]), ([2, 1], [-1]), ([1], [0])):
        for dyn in (False, True):
            if dyn and not dims:
                continue
            s.add("squeeze/%s/%s" % (shp(qs), "_".join(map(str, dims))), one("SQUEEZE", "SqueezeOptions", squeezeDims=dims), [(qs, F32)], feeds_for([qs], [F32]), dyn=dyn)
    for es in ([], [3], [2, 3]):
        for ax in range(-len(es) - 1, len(es) + 1):
            s.add("expand/%s/a%d" % (shp(es), ax), one("EXPAND_DIMS", "ExpandDimsOptions", consts=[np.array(ax, np.int32)]), [(es, F32)], feeds_for([es], [F32]))
    for n in (1, 2, 3, 4):
        ts = [2, 3, 4, 2][:n]
        for perm in itertools.permutations(range(n)):
            for dyn in (False, True):
                s.add("transpose/%s" % "".join(map(str, perm)), one("TRANSPOSE", "TransposeOptions", consts=[np.array(perm, np.int32)]), [(ts, F32)], feeds_for([ts], [F32]), dyn=dyn)
    for es in ([], [3], [2, 3]):
        for ax in range(-len(es) - 1, len(es) + 1):
            for n in (1, 2, 3):
                s.add("pack/%s/a%d/n%d" % (shp(es), ax, n), one("PACK", "PackOptions", axis=ax, valuesCount=n), [(es, F32)] * n, feeds_for([es] * n, [F32] * n))
    for us in ([2], [2, 3], [2, 3, 2]):
        for ax in range(-len(us), len(us)):
            for dyn in (False, True):
                s.add("unpack/%s/a%d" % (shp(us), ax), one("UNPACK", "UnpackOptions", nout=us[ax], axis=ax, num=us[ax]), [(us, F32)], feeds_for([us], [F32]), dyn=dyn)
    for ax in range(-3, 3):
        for n in (1, 2, 3):
            for act in ("none",):
                s.add("concat/a%d/n%d/%s" % (ax, n, act), one("CONCATENATION", "ConcatenationOptions", axis=ax, fusedActivationFunction=ACTS[act]), [(sh, F32)] * n, feeds_for([sh] * n, [F32] * n))
    s.add("concat/const", one("CONCATENATION", "ConcatenationOptions", consts=[mixed([2, 1, 2], F32, 3)], axis=1), [(sh, F32)], f)
    for ax in range(-3, 3):
        ps = [2, 4, 6]
        for n in (1, 2):
            def split(mb, x, ax=ax, n=n):
                return mb.op("SPLIT", [mb.const(np.array(ax, np.int32)), x], [F32] * n, "SplitOptions", numSplits=n)
            s.add("split/a%d/n%d" % (ax, n), split, [(ps, F32)], feeds_for([ps], [F32]))
        d = ps[ax]
        for sizes in ([d], [1, d - 1], [d - 1, -1], [0, d]):
            s.add("splitv/a%d/%s" % (ax, "_".join(map(str, sizes))), one("SPLIT_V", "SplitVOptions", nout=len(sizes), consts=[np.array(sizes, np.int32), np.array(ax, np.int32)], numSplits=len(sizes)),
                  [(ps, F32)], feeds_for([ps], [F32]))
    for b, z in itertools.product(itertools.product((0, 1), (0, 2), (1,)), itertools.product((1, -1), (1, -1), (-1, 1))):
        for dyn in (False, True):
            s.add("slice/%s/%s" % ("".join(map(str, b)), "_".join(map(str, z))), one("SLICE", "SliceOptions", consts=[np.array(b, np.int32), np.array(z, np.int32)]), [(sh, F32)], f, dyn=dyn)
    s.add("slice/rt", one("SLICE", "SliceOptions"), [(sh, F32), ([3], "int32"), ([3], "int32")], [[f[0][0], np.array([0, 1, 0], "int32"), np.array([1, -1, 2], "int32")]])
    grid = [([0, 0], [2, 3], [1, 1]), ([0, 1], [2, 3], [1, 2]), ([-1, -2], [-3, -5], [-1, -1]), ([1, 2], [0, 0], [-1, -2]), ([0, 0], [1, 1], [1, 1])]
    for b, e, st in grid:
        for bm, em, sm in itertools.product((0, 1, 2, 3), (0, 1, 2, 3), (0, 1, 2, 3)):
            if tier == "quick" and bm and em and bm != em:
                continue
            if any(sm >> k & 1 and v < 0 for k, v in enumerate(st)):
                continue        # the kernel reads out of bounds
            s.add("sslice/%s_%s_%s/%d%d%d" % ("".join(map(str, b)), "".join(map(str, e)), "".join(map(str, st)), bm, em, sm),
                  one("STRIDED_SLICE", "StridedSliceOptions", consts=[np.array(v, np.int32) for v in (b, e, st)], beginMask=bm, endMask=em, shrinkAxisMask=sm),
                  [([2, 3], F32)], feeds_for([[2, 3]], [F32]))
    for el, na in itertools.product((0, 1, 2), (0, 1, 2)):
        if el == na and el:
            continue
        s.add("ssliceel/%d%d" % (el, na), one("STRIDED_SLICE", "StridedSliceOptions", consts=[np.array(v, np.int32) for v in ([0, 1], [1, 2], [1, 1])], ellipsisMask=el, newAxisMask=na), [(sh, F32)], f)
    for rank in (1, 2, 3):
        gs = [3, 2, 4][:rank]
        for ax in range(-rank, rank):
            for ish in ([], [2], [2, 2]):
                iv = (np.arange(int(np.prod(ish))).reshape(ish) % gs[ax]).astype(np.int32)
                for dt in (F32, "int32", "string")[:2]:
                    s.add("gather/%s/a%d/%s/%s" % (shp(gs), ax, shp(ish), dt), one("GATHER", "GatherOptions", [dt], axis=ax), [(gs, dt), (ish, "int32")], [[mixed(gs, dt, 1), iv]])
    for bd, ax in ((1, 1), (1, 2), (2, 2), (-1, -1), (1, -1)):
        s.add("gatherb/b%d/a%d" % (bd, ax), one("GATHER", "GatherOptions", axis=ax, batchDims=bd), [([2, 3, 4], F32), ([2, 3], "int32")], [[mixed([2, 3, 4], F32, 1), np.array([[0, 2, 1], [1, 0, 2]], np.int32)]])
    for idx in ([[0], [1]], [[0, 1], [1, 2]], [[0, 1, 1]], [[[0, 1]], [[1, 2]]]):
        for dt in ("int32", "int64"):
            s.add("gathernd/%s/%s" % (str(idx).replace(" ", ""), dt), one("GATHER_ND", "GatherNdOptions", consts=[np.array(idx, dt)]), [(sh, F32)], f)
    for idx, us, os_ in (([[0], [2]], [2], [4]), ([[0], [2]], [2, 3], [4, 3]), ([[0, 1], [2, 2]], [2], [4, 3]), ([[1], [1]], [2], [3])):
        def scat(mb, u, idx=idx, os_=os_):
            return mb.op("SCATTER_ND", [mb.const(np.array(idx, np.int32)), u, mb.const(np.array(os_, np.int32))], [F32], "ScatterNdOptions")
        s.add("scatternd/%s/%s" % (str(idx).replace(" ", ""), shp(os_)), scat, [(us, F32)], feeds_for([us], [F32]))
    for reps in itertools.product((1, 2), (1, 3)):
        for dt in ("int32", "int64"):
            s.add("tile/%s/%s" % ("".join(map(str, reps)), dt), one("TILE", "TileOptions", consts=[np.array(reps, dt)]), [([2, 3], F32)], feeds_for([[2, 3]], [F32]))
    for pads in itertools.product((0, 1), (0, 2), (0, 1), (0, 1)):
        p = np.array(pads, np.int32).reshape(2, 2)
        tag = "".join(map(str, pads))
        for dt in (F32, "int32", "int64"):
            s.add("pad/%s/%s" % (tag, dt), one("PAD", "PadOptions", [dt], consts=[p]), [([3, 4], dt)], feeds_for([[3, 4]], [dt]))
            s.add("padv2/%s/%s" % (tag, dt), one("PADV2", "PadV2Options", [dt], consts=[p, np.array(3, dt)]), [([3, 4], dt)], feeds_for([[3, 4]], [dt]))
        for mode in (0, 1):
            for dyn in (False, True):
                s.add("mirror/%d/%s" % (mode, tag), one("MIRROR_PAD", "MirrorPadOptions", consts=[p], mode=mode), [([3, 4], F32)], feeds_for([[3, 4]], [F32]), dyn=dyn)
    for ax in ([0], [1], [2], [0, 1], [-1], [0, 1, 2]):
        s.add("reverse/%s" % "_".join(map(str, ax)), one("REVERSE_V2", "ReverseV2Options", consts=[np.array(ax, np.int32)]), [(sh, F32)], f)
    for sq, bt in itertools.permutations(range(3), 2):
        n = [2, 3, 4]
        for dt in ("int32", "int64"):
            s.add("revseq/s%db%d/%s" % (sq, bt, dt), one("REVERSE_SEQUENCE", "ReverseSequenceOptions", seqDim=sq, batchDim=bt), [(n, F32), ([n[bt]], dt)],
                  [[mixed(n, F32, 1), (np.arange(n[bt]) % n[sq] + 1).astype(dt)]])
    for a, b in (([3], [2, 3]), ([1, 3], [2, 3]), ([2, 1], [2, 3]), ([], [2])):
        for dt in ("int32", "int64"):
            s.add("bcast/%s/%s/%s" % (shp(a), shp(b), dt), one("BROADCAST_TO", "BroadcastToOptions", consts=[np.array(b, dt)], version=2), [(a, F32)], feeds_for([a], [F32]))
    for dims in ([], [3], [2, 3]):
        for dt in (F32, "int32", "int64", "bool"):
            def fill(mb, v, dims=dims, dt=dt):
                return mb.op("FILL", [mb.const(np.array(dims, np.int32)), v], [dt], "FillOptions")
            s.add("fill/%s/%s" % (shp(dims), dt), fill, [([], dt)], feeds_for([[]], [dt]))
    for dt in (F32, "int32"):
        for r in ((0, 5, 1), (1, 8, 3), (5, 0, -2), (3, 3, 1)):
            s.add("range/%s/%s" % (dt, "_".join(map(str, r))), one("RANGE", "RangeOptions", [dt]), [([], dt)] * 3, [[np.array(v, dt) for v in r]])
    for dt, ax, ish in itertools.product((F32, "int32", "int64", "bool"), (-1, 0, 1), ([3], [2, 2])):
        cs = [np.array(4, np.int32), np.array(1, dt), np.array(0, dt)]
        s.add("onehot/%s/a%d/%s" % (dt, ax, shp(ish)), one("ONE_HOT", "OneHotOptions", [dt], consts=cs, axis=ax), [(ish, "int32")], [[(np.arange(int(np.prod(ish))).reshape(ish) * 2 % 6 - 1).astype(np.int32)]])
    for op, o in (("SELECT", "SelectOptions"), ("SELECT_V2", "SelectV2Options")):
        for c, a, b in (([2, 3], [2, 3], [2, 3]), ([2], [2, 3], [2, 3]), ([2, 1], [2, 3], [3]), ([], [2, 3], [2, 3]), ([2, 3], [], [2, 3])):
            for dt in (F32, "int32", "bool"):
                s.add("%s/%s/%s-%s-%s" % (op.lower(), dt, shp(c), shp(a), shp(b)), one(op, o, [dt]), [(c, "bool"), (a, dt), (b, dt)], feeds_for([c, a, b], ["bool", dt, dt]))
    for ws in ([4], [2, 3], [2, 2, 2]):
        for dt in ("bool", F32, "int32"):
            a = mixed(ws, "bool", 1)
            s.add("where/%s/%s" % (shp(ws), dt), one("WHERE", "WhereOptions", ["int64"]), [(ws, dt)], [[a.astype(dt)], [np.zeros(ws, dt)], [np.ones(ws, dt)]])
    for k in (1, 2, 3):
        for dt in (F32, "int32"):
            s.add("topk/%d/%s" % (k, dt), one("TOPK_V2", "TopKV2Options", [dt, "int32"], consts=[np.array(k, np.int32)]), [([2, 4], dt)], [[(np.arange(8).reshape(2, 4) * 5 % 8).astype(dt)]])
    for dt, it in itertools.product((F32, "int32", "int64"), ("int32", "int64")):
        s.add("unique/%s/%s" % (dt, it), one("UNIQUE", "UniqueOptions", [dt, it], idxOutType=tflcase.TT[it]), [([6], dt)], [[np.array([3, 1, 3, 2, 1, 5], dt)], [np.array([1, 1, 1, 1, 1, 1], dt)]])
    for dt in (F32, "int32", "int64"):
        def s2d(mb, v, dt=dt):
            return mb.op("SPARSE_TO_DENSE", [mb.const(np.array([[0, 1], [1, 2]], np.int32)), mb.const(np.array([2, 3], np.int32)), v, mb.const(np.array(7, dt))], [dt], "SparseToDenseOptions")
        s.add("sp2d/%s" % dt, s2d, [([2], dt)], feeds_for([[2]], [dt]))
    for b in (2, 3):
        for dt in (F32, "int32"):
            ss = [2, b * 2, b, 3]
            s.add("s2d/%d/%s" % (b, dt), one("SPACE_TO_DEPTH", "SpaceToDepthOptions", [dt], blockSize=b), [(ss, dt)], feeds_for([ss], [dt]))
            ss = [2, 1, 2, b * b * 2]
            s.add("d2s/%d/%s" % (b, dt), one("DEPTH_TO_SPACE", "DepthToSpaceOptions", [dt], blockSize=b), [(ss, dt)], feeds_for([ss], [dt]))
    for bl, pd in itertools.product(([1, 2], [2, 1], [2, 2]), ([[0, 0], [0, 0]], [[1, 1], [0, 2]], [[2, 0], [1, 1]])):
        ss = [1, 4, 4, 2]
        tag = "%s/%s" % ("".join(map(str, bl)), "".join(map(str, sum(pd, []))))
        s.add("s2b/" + tag, one("SPACE_TO_BATCH_ND", "SpaceToBatchNDOptions", consts=[np.array(bl, np.int32), np.array(pd, np.int32)]), [(ss, F32)], feeds_for([ss], [F32]))
        bs = [4, 3, 3, 2]
        s.add("b2s/" + tag, one("BATCH_TO_SPACE_ND", "BatchToSpaceNDOptions", consts=[np.array(bl, np.int32), np.array(pd, np.int32)]), [(bs, F32)], feeds_for([bs], [F32]))
    for ms in ([3], [2, 3]):
        s.add("mdiag/%s" % shp(ms), one("MATRIX_DIAG", "MatrixDiagOptions"), [(ms, F32)], feeds_for([ms], [F32]))
    for ms, dg in (([3, 3], [3]), ([2, 3, 4], [2, 3]), ([2, 4, 3], [2, 3])):
        s.add("msetdiag/%s" % shp(ms), one("MATRIX_SET_DIAG", "MatrixSetDiagOptions"), [(ms, F32), (dg, F32)], feeds_for([ms, dg], [F32] * 2))
    s.add("embed", lambda mb, i: mb.op("EMBEDDING_LOOKUP", [i, mb.const(mixed([4, 3], F32, 1))], [F32]), [([3], "int32")], [[np.array([1, 0, 3], np.int32)]])
    s.add("dus", one("DYNAMIC_UPDATE_SLICE", "DynamicUpdateSliceOptions"), [([4, 3], F32), ([2, 2], F32), ([2], "int32")], [[mixed([4, 3], F32, 1), mixed([2, 2], F32, 2), np.array([1, 1], np.int32)]])


PAD = {"same": 0, "valid": 1}


def nn(s, tier):
    for pad, st, dil, act, bias in itertools.product(PAD, ((1, 1), (2, 1), (2, 2)), ((1, 1), (1, 2), (2, 2)), ("none", "relu", "relu6"), (1,)):        # the kernels ask for a bias
        if dil != (1, 1) and st != (1, 1):
            continue
        for sh, k in (([1, 5, 6, 2], [3, 3, 2]), ([2, 4, 4, 1], [2, 3, 1]), ([1, 5, 5, 3], [1, 1, 3])):
            if pad == "valid" and (k[0] - 1) * dil[0] >= sh[1] or (k[1] - 1) * dil[1] >= sh[2]:
                continue
            if tier == "quick" and k != [3, 3, 2] and (act not in ("none", "relu6")):
                continue
            tag = "%s/s%d%d/d%d%d/%s/b%d/%s/%s" % (pad, st[0], st[1], dil[0], dil[1], act, bias, shp(sh), shp(k))
            cs = [mixed([2] + k, F32, 2)] + ([mixed([2], F32, 3)] if bias else [])
            s.add("conv/" + tag, one("CONV_2D", "Conv2DOptions", consts=cs, padding=PAD[pad], strideH=st[0], strideW=st[1], dilationHFactor=dil[0], dilationWFactor=dil[1],
                                     fusedActivationFunction=ACTS[act]), [(sh, F32)], feeds_for([sh], [F32]))
            for mult in (1, 2):
                if mult == 2 and act != "none":
                    continue
                c = sh[3] * mult
                cs = [mixed([1, k[0], k[1], c], F32, 2)] + ([mixed([c], F32, 3)] if bias else [])
                s.add("dw/m%d/%s" % (mult, tag), one("DEPTHWISE_CONV_2D", "DepthwiseConv2DOptions", consts=cs, padding=PAD[pad], strideH=st[0], strideW=st[1], dilationHFactor=dil[0],
                                                     dilationWFactor=dil[1], depthMultiplier=mult, fusedActivationFunction=ACTS[act]), [(sh, F32)], feeds_for([sh], [F32]))
    for pad, st, bias, act in itertools.product(PAD, ((1, 1), (2, 2), (2, 1)), (0, 1), ("none", "relu", "relu6")):
        for h, k in ((3, 3), (4, 2)):
            oh = [h * st[0], h * st[1]] if pad == "same" else [(h - 1) * st[0] + k, (h - 1) * st[1] + k]

            def tconv(mb, x, pad=pad, st=st, bias=bias, act=act, k=k, oh=oh):
                ins = [mb.const(np.array([1] + oh + [2], np.int32)), mb.const(mixed([2, k, k, 3], F32, 2)), x] + ([mb.const(mixed([2], F32, 5))] if bias else [])
                return mb.op("TRANSPOSE_CONV", ins, [F32], "TransposeConvOptions", padding=PAD[pad], strideH=st[0], strideW=st[1], fusedActivationFunction=ACTS[act])
            s.add("tconv/%s/s%d%d/b%d/%s/h%dk%d" % (pad, st[0], st[1], bias, act, h, k), tconv, [([1, h, h, 3], F32)], feeds_for([[1, h, h, 3]], [F32]))
    for op, pad, st, k, act in itertools.product(("AVERAGE_POOL_2D", "MAX_POOL_2D", "L2_POOL_2D"), PAD, ((1, 1), (2, 2), (1, 2)), ((2, 2), (3, 2)), ("none", "relu", "relu6")):
        for dyn in (False, True):
            if dyn and act != "none":
                continue
            s.add("pool/%s/%s/s%d%d/k%d%d/%s" % (op, pad, st[0], st[1], k[0], k[1], act), one(op, "Pool2DOptions", padding=PAD[pad], strideH=st[0], strideW=st[1], filterHeight=k[0], filterWidth=k[1],
                                                                                            fusedActivationFunction=ACTS[act]), [([1, 5, 4, 2], F32)], feeds_for([[1, 5, 4, 2]], [F32]), dyn=dyn)
    for pad, st, dil, bias in itertools.product(PAD, ((1, 1, 1), (2, 1, 2)), ((1, 1, 1), (1, 2, 1)), (0, 1)):
        if dil != (1, 1, 1) and st != (1, 1, 1):
            continue
        cs = [mixed([2, 2, 2, 2, 3], F32, 2)] + ([mixed([3], F32, 1)] if bias else [])
        s.add("conv3d/%s/%s/%s/b%d" % (pad, "".join(map(str, st)), "".join(map(str, dil)), bias), one("CONV_3D", "Conv3DOptions", consts=cs, padding=PAD[pad], strideD=st[0], strideH=st[1], strideW=st[2],
              dilationDFactor=dil[0], dilationHFactor=dil[1], dilationWFactor=dil[2]), [([1, 3, 4, 4, 2], F32)], feeds_for([[1, 3, 4, 4, 2]], [F32]))
    for sh, keep, bias, act, wc in itertools.product(([3], [2, 3], [2, 2, 3], [1, 2, 2, 3], [2, 6]), (False, True), (0, 1), ACTS, (0, 1)):
        if wc == 0 and act not in ("none", "relu6"):
            continue
        def fc(mb, x, *w, keep=keep, bias=bias, act=act, wc=wc):
            ins = [x, w[0] if w else mb.const(mixed([4, 3], F32, 2))] + ([mb.const(mixed([4], F32, 3))] if bias else [-1])
            return mb.op("FULLY_CONNECTED", ins, [F32], "FullyConnectedOptions", keepNumDims=keep, fusedActivationFunction=ACTS[act])
        for dyn in (False, True):
            s.add("fc/%s/k%d/b%d/%s/w%d" % (shp(sh), keep, bias, act, wc), fc, [(sh, F32)] + ([] if wc else [([4, 3], F32)]), feeds_for([sh] + ([] if wc else [[4, 3]]), [F32] * (2 - wc)), dyn=dyn)
    for ax, ay in itertools.product((False, True), (False, True)):
        for a, b in (([2, 3], [3, 4]), ([2, 2, 3], [2, 3, 4]), ([2, 1, 2, 3], [3, 3, 4]), ([2, 3], [2, 3, 4])):
            a2 = a[:-2] + ([a[-1], a[-2]] if ax else a[-2:])
            b2 = b[:-2] + ([b[-1], b[-2]] if ay else b[-2:])
            for cst in (0, 1):
                s.add("bmm/%d%d/%s-%s/c%d" % (ax, ay, shp(a), shp(b), cst), one("BATCH_MATMUL", "BatchMatMulOptions", consts=[mixed(b2, F32, 3)] if cst else [], adjX=ax, adjY=ay),
                      [(a2, F32)] + ([] if cst else [(b2, F32)]), feeds_for([a2] + ([] if cst else [b2]), [F32] * (2 - cst)))
    for r, b, al, be in itertools.product((0, 1, 2), (1.0, 0.5), (1.0, 0.3), (0.5, 0.75)):
        s.add("lrn/%d/%s/%s/%s" % (r, b, al, be), one("LOCAL_RESPONSE_NORMALIZATION", "LocalResponseNormalizationOptions", radius=r, bias=b, alpha=al, beta=be), [([1, 2, 2, 5], F32)], feeds_for([[1, 2, 2, 5]], [F32]))
    for op, o in (("RESIZE_BILINEAR", "ResizeBilinearOptions"), ("RESIZE_NEAREST_NEIGHBOR", "ResizeNearestNeighborOptions")):
        for al, hp in ((False, False), (True, False), (False, True)):
            for size in ([4, 6], [6, 8], [3, 3], [1, 1], [2, 3]):
                s.add("resize/%s/%d%d/%s" % (op, al, hp, shp(size)), one(op, o, consts=[np.array(size, np.int32)], alignCorners=al, halfPixelCenters=hp), [([1, 2, 3, 2], F32)], feeds_for([[1, 2, 3, 2]], [F32]))
    boxes = np.array([[0, 0, 1, 1], [0, 0.1, 1, 1.1], [0, -0.1, 1, 0.9], [0, 10, 1, 11], [0, 10.1, 1, 11.1], [0, 100, 1, 101]], F32)
    scores = np.array([0.9, 0.75, 0.6, 0.95, 0.5, 0.3], F32)
    for iou, sc, m in itertools.product((0.5, 0.9), (0.0, 0.4), (1, 3, 6)):
        cs = [np.array(m, np.int32), np.array(iou, F32), np.array(sc, F32)]
        s.add("nms4/%s/%s/%d" % (iou, sc, m), one("NON_MAX_SUPPRESSION_V4", "NonMaxSuppressionV4Options", ["int32", "int32"], consts=cs), [([6, 4], F32), ([6], F32)], [[boxes, scores]])
        s.add("nms5/%s/%s/%d" % (iou, sc, m), one("NON_MAX_SUPPRESSION_V5", "NonMaxSuppressionV5Options", ["int32", F32, "int32"], consts=cs + [np.array(0, F32)]), [([6, 4], F32), ([6], F32)], [[boxes, scores]])
    for n in ([2, 4], [4, 4], [1, 8]):
        def spec(mb, x, n=n):
            c = mb.op("RFFT2D", [x, mb.const(np.array(n, np.int32))], ["complex64"], "Rfft2dOptions")
            return mb.op("COMPLEX_ABS", c, [F32])
        s.add("rfft2d/%s" % shp(n), spec, [([2] + n, F32)], feeds_for([[2] + n], [F32]))


def rfft1(s, tier):
    """how TFLite models express a one-dimensional transform"""
    for n in (2, 4, 8):
        for ln, lead, more, sh in itertools.product((n, n // 2), ([2], [1], [2, 3]), (0, 1), (0, 1, 2)):
            if ln < 2:
                continue
            def build(mb, x, n=n, ln=ln, lead=lead, more=more, sh=sh):
                y = mb.op("RESHAPE", [x, mb.const(np.array(lead + [1, n], np.int32))], [F32])[0]
                c = mb.op("RFFT2D", [y, mb.const(np.array([1, ln], np.int32))], ["complex64"], "Rfft2dOptions")[0]
                k = ln // 2 + 1
                tgt = lead + [k] if sh == 0 else [k] + lead if sh == 1 else [int(np.prod(lead)) * k]
                r = mb.op("RESHAPE", [c, mb.const(np.array(tgt, np.int32))], ["complex64"])[0]
                a = mb.op("COMPLEX_ABS", [r], [F32])
                return a + (mb.op("SQUARE", a, [F32]) if more else [])
            s.add("rfft1/%d/%d/%s/m%d/s%d" % (n, ln, shp(lead), more, sh), build, [(lead + [n], F32)], feeds_for([lead + [n]], [F32]))


def qfloat(sh):
    return [[(mixed(sh, F32, q) * 0.97 + 0.003).astype(F32)] for q in range(2)]        # no ties


def qf(shapes, dts, n=1):
    out = []
    for q in range(n):
        out.append([(np.arange(int(np.prod(sh))).reshape(sh) * 37 % 200 + (28 if d == "uint8" else -100)).astype(d) if d in ("uint8", "int8") else mixed(sh, d, q) for sh, d in zip(shapes, dts)])
    return out


def quantized(s, tier):
    for deq in (False, True):
        for qt, zp in (("int8", -3), ("uint8", 130), ("int8", 0)):
            q = (0.05, zp)
            for sh in ([4], [2, 3]):
                s.add("q/quantize/%s/%d/%s" % (qt, zp, shp(sh)), one("QUANTIZE", "QuantizeOptions", [(qt, q)]), [(sh, F32)], qfloat(sh), dequantize=deq)
                s.add("q/dequantize/%s/%d/%s" % (qt, zp, shp(sh)), one("DEQUANTIZE", "DequantizeOptions", [F32]), [(sh, qt, q)], qf([sh], [qt]), dequantize=deq)

            def dq(op, nin=1, opts=None, consts=(), outq=(0.07, zp), sh=(2, 3), qt=qt, q=q, zp=zp, **attrs):
                def build(mb, *ts):
                    r = mb.op(op, list(ts) + [mb.const(c) for c in consts], [(qt, outq)], opts, **attrs)
                    return mb.op("DEQUANTIZE", r, [F32], "DequantizeOptions")
                s.add("q/%s/%s/%d" % (op, qt, zp), build, [(list(sh), qt, q)] * nin, qf([list(sh)] * nin, [qt] * nin), dequantize=deq, tol=(1e-4, outq[0] * 1.01))
            dq("ADD", 2, "AddOptions", outq=(0.11, zp))
            dq("SUB", 2, "SubOptions")
            dq("MUL", 2, "MulOptions", outq=(0.4, zp))
            dq("RESHAPE", 1, "ReshapeOptions", [np.array([3, 2], np.int32)], outq=q)
            dq("TRANSPOSE", 1, "TransposeOptions", [np.array([1, 0], np.int32)], outq=q)
            dq("MEAN", 1, "ReducerOptions", [np.array([1], np.int32)], outq=q, keepDims=False)
            dq("CONCATENATION", 2, "ConcatenationOptions", outq=q, axis=1)
            dq("RELU", 1, outq=q)
            dq("MAX_POOL_2D", 1, "Pool2DOptions", outq=q, sh=(1, 3, 3, 2), padding=1, strideH=1, strideW=1, filterHeight=2, filterWidth=2)
            dq("AVERAGE_POOL_2D", 1, "Pool2DOptions", outq=q, sh=(1, 3, 3, 2), padding=1, strideH=1, strideW=1, filterHeight=2, filterWidth=2)
            dq("PAD", 1, "PadOptions", [np.array([[1, 0], [0, 2]], np.int32)], outq=q)
        # per-channel weights
        for bias, act in itertools.product((1,), ("none", "relu")):
            def conv(mb, x, bias=bias, act=act):
                sc = np.array([0.01, 0.02, 0.05], F32)
                w = mb.const((np.arange(3 * 2 * 2 * 2).reshape(3, 2, 2, 2) * 29 % 200 - 100).astype(np.int8), (sc, np.zeros(3, np.int64), 0))
                ins = [x, w] + ([mb.const(np.array([10, -20, 30], np.int32), (sc * 0.05, np.zeros(3, np.int64), 0))] if bias else [])
                r = mb.op("CONV_2D", ins, [("int8", (0.5, 4))], "Conv2DOptions", padding=1, strideH=1, strideW=1, fusedActivationFunction=ACTS[act])
                return mb.op("DEQUANTIZE", r, [F32], "DequantizeOptions")
            s.add("q/convpc/b%d/%s" % (bias, act), conv, [([1, 3, 3, 2], "int8", (0.05, -3))], qf([[1, 3, 3, 2]], ["int8"]), dequantize=deq, tol=(1e-4, 0.501))

            def dw(mb, x, bias=bias, act=act):
                sc = np.array([0.01, 0.05], F32)
                w = mb.const((np.arange(8).reshape(1, 2, 2, 2) * 29 % 200 - 100).astype(np.int8), (sc, np.zeros(2, np.int64), 3))
                ins = [x, w, mb.const(np.array([10, -20], np.int32), (sc * 0.05, np.zeros(2, np.int64), 0))]
                r = mb.op("DEPTHWISE_CONV_2D", ins, [("int8", (0.5, 4))], "DepthwiseConv2DOptions", padding=1, strideH=1, strideW=1, depthMultiplier=1, fusedActivationFunction=ACTS[act])
                return mb.op("DEQUANTIZE", r, [F32], "DequantizeOptions")
            s.add("q/dwpc/b%d/%s" % (bias, act), dw, [([1, 3, 3, 2], "int8", (0.05, -3))], qf([[1, 3, 3, 2]], ["int8"]), dequantize=deq, tol=(1e-4, 0.501))

            def fc(mb, x, bias=bias, act=act):
                w = mb.const((np.arange(12).reshape(4, 3) * 29 % 200 - 100).astype(np.int8), (0.02, 0))
                ins = [x, w, mb.const(np.array([10, -20, 30, 5], np.int32), (0.001, 0)) if bias else -1]
                r = mb.op("FULLY_CONNECTED", ins, [("int8", (0.5, 4))], "FullyConnectedOptions", fusedActivationFunction=ACTS[act])
                return mb.op("DEQUANTIZE", r, [F32], "DequantizeOptions")
            s.add("q/fc/b%d/%s" % (bias, act), fc, [([2, 3], "int8", (0.05, -3))], qf([[2, 3]], ["int8"]), dequantize=deq, tol=(1e-4, 0.501))
        # float graphs with quantized / half weights
        def wq(mb, x):
            w = mb.const((np.arange(12).reshape(4, 3) * 29 % 200 - 100).astype(np.int8), (0.02, 0))
            wf = mb.op("DEQUANTIZE", [w], [F32], "DequantizeOptions")[0]
            return mb.op("FULLY_CONNECTED", [x, wf, -1], [F32], "FullyConnectedOptions")
        s.add("q/weights/int8", wq, [([2, 3], F32)], feeds_for([[2, 3]], [F32]), dequantize=deq)

        def wpc(mb, x):
            w = mb.const((np.arange(12).reshape(4, 3) * 29 % 200 - 100).astype(np.int8), (np.array([0.1, 0.2, 0.3, 0.4], F32), np.array([0, 0, 0, 0]), 0))
            wf = mb.op("DEQUANTIZE", [w], [F32], "DequantizeOptions")[0]
            return mb.op("FULLY_CONNECTED", [x, wf, -1], [F32], "FullyConnectedOptions")
        s.add("q/weights/int8pc", wpc, [([2, 3], F32)], feeds_for([[2, 3]], [F32]), dequantize=deq)

        def wh(mb, x):
            wf = mb.op("DEQUANTIZE", [mb.const(mixed([4, 3], "float16", 2))], [F32], "DequantizeOptions")[0]
            return mb.op("FULLY_CONNECTED", [x, wf, -1], [F32], "FullyConnectedOptions")
        s.add("q/weights/float16", wh, [([2, 3], F32)], feeds_for([[2, 3]], [F32]), dequantize=deq)

        for ax in (0, 1):
            for zpt, qt in (([0, 0, 0], "int8"),):
                def qpc(mb, x, ax=ax, zpt=zpt, qt=qt):
                    a = mb.op("QUANTIZE", [x], [(qt, (np.array([0.05, 0.1, 0.2], F32), np.array(zpt), ax))], "QuantizeOptions")
                    return mb.op("DEQUANTIZE", a, [F32], "DequantizeOptions")
                s.add("q/quantpc/%s/a%d" % (qt, ax), qpc, [([3, 3], F32)], qfloat([3, 3]), dequantize=deq, tol=(1e-4, 0.2001 if deq else 1e-4))

        def requant(mb, x):
            a = mb.op("QUANTIZE", [x], [("int8", (0.05, -3))], "QuantizeOptions")
            b = mb.op("QUANTIZE", a, [("uint8", (0.1, 128))], "QuantizeOptions")
            return mb.op("DEQUANTIZE", b, [F32], "DequantizeOptions")
        s.add("q/requant", requant, [([2, 3], F32)], feeds_for([[2, 3]], [F32]), dequantize=deq, tol=(1e-4, 0.1001))

        def qdtwo(mb, x):
            a = mb.op("QUANTIZE", [x], [("int8", (0.05, -3))], "QuantizeOptions")
            b = mb.op("DEQUANTIZE", a, [F32], "DequantizeOptions")
            c = mb.op("ABS", b, [F32])
            return c + b
        s.add("q/two", qdtwo, [([2, 3], F32)], qfloat([2, 3]), dequantize=deq, tol=(1e-4, 0.0501))


def control(s, tier):
    for c in (False, True):
        def cond(mb, p, x, y):
            t, ti = mb.subgraph("then")
            a, b = t.tensor([2, 3], F32), t.tensor([2, 3], F32)
            t.sub.inputs = np.array([a, b], np.int32)
            t.sub.outputs = np.array(t.op("ADD", [a, b], [F32], "AddOptions", fusedActivationFunction=1), np.int32)
            e, ei = mb.subgraph("else")
            a, b = e.tensor([2, 3], F32), e.tensor([2, 3], F32)
            e.sub.inputs = np.array([a, b], np.int32)
            e.sub.outputs = np.array(e.op("SUB", [a, b], [F32], "SubOptions"), np.int32)
            r = mb.op("IF", [p, x, y], [F32], "IfOptions", thenSubgraphIndex=ti, elseSubgraphIndex=ei)
            return r + mb.op("ABS", r, [F32])
        if not c:
            s.add("if", cond, [([], "bool"), ([2, 3], F32), ([2, 3], F32)], [[np.array(v), mixed([2, 3], F32, 1), mixed([2, 3], F32, 2)] for v in (True, False)])
    for variant in ("count", "swap", "invariant", "condacc", "scan"):
        def loop(mb, n, x, y, variant=variant):
            def vars_of(g):
                ts = [g.tensor([], "int32"), g.tensor([], "int32"), g.tensor([3], F32), g.tensor([3], F32)]
                g.sub.inputs = np.array(ts, np.int32)
                return ts
            cg, ci = mb.subgraph("cond")
            i, m, a, b = vars_of(cg)
            r = cg.op("LESS", [i, m], ["bool"], "LessOptions")
            if variant == "condacc":
                sm = cg.op("SUM", [a, cg.const(np.array([0], np.int32))], [F32], "ReducerOptions", keepDims=False)
                lt = cg.op("LESS", [sm[0], cg.const(np.array(20.0, F32))], ["bool"], "LessOptions")
                r = cg.op("LOGICAL_AND", r + lt, ["bool"], "LogicalAndOptions")
            cg.sub.outputs = np.array(r, np.int32)
            bg, bi = mb.subgraph("body")
            i, m, a, b = vars_of(bg)
            i2 = bg.op("ADD", [i, bg.const(np.array(1, np.int32))], ["int32"], "AddOptions")[0]
            a2 = bg.op("ADD", [a, b], [F32], "AddOptions")[0]
            if variant == "swap":
                res = [i2, m, b, a2]
            elif variant == "invariant":
                res = [i2, m, a2, b]
            else:
                b2 = bg.op("MUL", [b, bg.const(np.array([0.5, 2, 1], F32))], [F32], "MulOptions", fusedActivationFunction=1)[0]
                res = [i2, m, a2, b2]
            bg.sub.outputs = np.array(res, np.int32)
            zero = mb.const(np.array(0, np.int32))
            return mb.op("WHILE", [zero, n, x, y], ["int32", "int32", F32, F32], "WhileOptions", condSubgraphIndex=ci, bodySubgraphIndex=bi)
        if variant != "scan":
            s.add("while/" + variant, loop, [([], "int32"), ([3], F32), ([3], F32)], [[np.array(v, np.int32), mixed([3], F32, 1), mixed([3], F32, 2)] for v in (0, 1, 4)])


    # the slice/concatenate idiom that writes one row of an array per turn; elements that the loop never writes keep what they were
    for rank, start, length, lim, extra in itertools.product((1, 2), (0, 1), (3,), (2, 3), (0, 1)):
        def scan(mb, n, arr, x, rank=rank, start=start, lim=lim, extra=extra):
            tail = [2] if rank == 2 else []
            def sub(name):
                g, gi = mb.subgraph(name)
                ts = [g.tensor([], "int32"), g.tensor([], "int32"), g.tensor([length] + tail, F32), g.tensor(tail, F32)]
                g.sub.inputs = np.array(ts, np.int32)
                return g, gi, ts
            cg, ci, (i, m, a, v) = sub("cond")
            cg.sub.outputs = np.array(cg.op("LESS", [i, m], ["bool"], "LessOptions"), np.int32)
            bg, bi, (i, m, a, v) = sub("body")
            onec = bg.const(np.array(1, np.int32))
            i2 = bg.op("ADD", [i, onec], ["int32"], "AddOptions")[0]
            s1 = bg.const(np.array([1], np.int32))
            def vec(t, rest):
                r = bg.op("RESHAPE", [t, s1], ["int32"])[0]
                return bg.op("CONCATENATION", [r, bg.const(np.array([rest], np.int32))], ["int32"], "ConcatenationOptions", axis=0)[0] if rank == 2 else r
            v2 = bg.op("ADD", [v, bg.const(np.full(tail, 2, F32))], [F32], "AddOptions")[0]
            row = bg.op("EXPAND_DIMS", [v2 if extra else v, bg.const(np.array(0, np.int32))], [F32])[0]
            zero = bg.const(np.zeros(rank, np.int32))
            end = bg.const(np.full(rank, -1, np.int32))
            first = bg.op("SLICE", [a, zero, vec(i, -1)], [F32], "SliceOptions")[0]
            last = bg.op("SLICE", [a, vec(i2, 0), end], [F32], "SliceOptions")[0]
            a2 = bg.op("CONCATENATION", [first, row, last], [F32], "ConcatenationOptions", axis=0)[0]
            bg.sub.outputs = np.array([i2, m, a2, v2], np.int32)
            return mb.op("WHILE", [mb.const(np.array(start, np.int32)), n, arr, x], ["int32", "int32", F32, F32], "WhileOptions", condSubgraphIndex=ci, bodySubgraphIndex=bi)
        t = [2] if rank == 2 else []
        s.add("scan/r%d/from%d/to%d/e%d" % (rank, start, lim, extra), scan, [([], "int32"), ([length] + t, F32), (t, F32)],
              [[np.array(lim, np.int32), np.zeros([length] + t, F32), mixed(t, F32, 2)]])

    for op, ordr in itertools.product(("MUL", "DIV"), (0, 1)):
        for z, e in itertools.product((0.0, 1.0), (0.0, 1.0) if op == "MUL" else (0.0,)):
            def selz(mb, x, y, op=op, ordr=ordr, z=z, e=e):
                eq = mb.op("EQUAL", [y, mb.const(np.array(e, F32))] if ordr else [mb.const(np.array(e, F32)), y], ["bool"], "EqualOptions")[0]
                m = mb.op(op, [x, y], [F32], BOPT[op])[0]
                return mb.op("SELECT_V2", [eq, mb.const(np.array(z, F32)), m], [F32], "SelectV2Options") + ([m] if op == "MUL" else [])        # the kernel clips a quotient to finite values
            s.add("selz/%s/%d/z%d/e%d" % (op, ordr, z, e), selz, [([2, 3], F32), ([2, 3], F32)],
                  [[np.array([[1, -5, 0.5], [2, -1, 3]], F32), np.array([[0, 0, 0], [1, 2, 0]], F32)] if op == "DIV" else
                   [np.array([[1, np.inf, np.nan], [2, -1, 0]], F32), np.array([[0, 0, 0], [1, 2, 0]], F32)]])
    # control flow inside control flow: a branch in the body of a loop
    def nested(mb, n, x):
        def sub(name):
            g, gi = mb.subgraph(name)
            ts = [g.tensor([], "int32"), g.tensor([], "int32"), g.tensor([3], F32)]
            g.sub.inputs = np.array(ts, np.int32)
            return g, gi, ts
        cg, ci, (i, m, a) = sub("cond")
        cg.sub.outputs = np.array(cg.op("LESS", [i, m], ["bool"], "LessOptions"), np.int32)
        branches = []
        for name, op, opt in (("then", "ADD", "AddOptions"), ("else", "MUL", "MulOptions")):
            g, gi = mb.subgraph(name)
            t = g.tensor([3], F32)
            g.sub.inputs = np.array([t], np.int32)
            g.sub.outputs = np.array(g.op(op, [t, g.const(np.array([1, 2, -0.5], F32))], [F32], opt), np.int32)
            branches.append(gi)
        bg, bi, (i, m, a) = sub("body")
        one_ = bg.const(np.array(1, np.int32))
        p = bg.op("LESS", [i, one_], ["bool"], "LessOptions")
        r = bg.op("IF", p + [a], [F32], "IfOptions", thenSubgraphIndex=branches[0], elseSubgraphIndex=branches[1])
        bg.sub.outputs = np.array([bg.op("ADD", [i, one_], ["int32"], "AddOptions")[0], m] + r, np.int32)
        return mb.op("WHILE", [mb.const(np.array(0, np.int32)), n, x], ["int32", "int32", F32], "WhileOptions", condSubgraphIndex=ci, bodySubgraphIndex=bi)
    s.add("nested", nested, [([], "int32"), ([3], F32)], [[np.array(v, np.int32), mixed([3], F32, 1)] for v in (0, 1, 2, 4)])

    # subgraphs that share a name
    def samename(mb, p, x):
        idx = []
        for op, o in (("ADD", "AddOptions"), ("SUB", "SubOptions")):
            g, gi = mb.subgraph("branch", unique=False)
            a = g.tensor([3], F32)
            g.sub.inputs = np.array([a], np.int32)
            g.sub.outputs = np.array(g.op(op, [a, g.const(np.array([1, 2, 3], F32))], [F32], o), np.int32)
            idx.append(gi)
        return mb.op("IF", [p, x], [F32], "IfOptions", thenSubgraphIndex=idx[0], elseSubgraphIndex=idx[1])
    s.add("samename", samename, [([], "bool"), ([3], F32)], [[np.array(v), mixed([3], F32, 1)] for v in (True, False)])

    # two loops, one after the other, and a loop whose result feeds another op
    def twice(mb, n, x):
        out = []
        for k in range(2):
            cg, ci = mb.subgraph("cond")
            ts = [cg.tensor([], "int32"), cg.tensor([3], F32)]
            cg.sub.inputs = np.array(ts, np.int32)
            cg.sub.outputs = np.array(cg.op("LESS", [ts[0], cg.const(np.array(5, np.int32))], ["bool"], "LessOptions"), np.int32)
            bg, bi = mb.subgraph("body")
            ts = [bg.tensor([], "int32"), bg.tensor([3], F32)]
            bg.sub.inputs = np.array(ts, np.int32)
            bg.sub.outputs = np.array([bg.op("ADD", [ts[0], bg.const(np.array(1 + k, np.int32))], ["int32"], "AddOptions")[0],
                                       bg.op("ADD" if k else "SUB", [ts[1], bg.const(np.array([1, 2, 3], F32))], [F32], "AddOptions" if k else "SubOptions")[0]], np.int32)
            n2, x = mb.op("WHILE", [n, x], ["int32", F32], "WhileOptions", condSubgraphIndex=ci, bodySubgraphIndex=bi)
            out += [n2, x]
            x = mb.op("ABS", [x], [F32])[0]
        return out + [x]
    s.add("twoloops", twice, [([], "int32"), ([3], F32)], [[np.array(v, np.int32), mixed([3], F32, 1)] for v in (0, 3, 7)])


def detection(s, tier):
    from flatbuffers import flexbuffers
    anchors = np.array([[0.5, 0.5, 1, 1], [0.5, 0.5, 1, 1], [0.5, 0.5, 1, 1], [0.5, 10.5, 1, 1], [0.5, 10.5, 1, 1], [0.5, 100.5, 1, 1]], F32)
    boxes = np.array([[[0, 0, 0, 0], [0, 1, 0, 0], [0, -1, 0, 0], [0, 0, 0, 0], [0, 1, 0, 0.5], [0, 0, 1, 0]]], F32)
    for n, (mx, per), iou, sc, bg in itertools.product((1, 2), ((3, 2), (3, 6), (6, 3), (8, 6)), (0.5, 0.9), (0.0, 0.35), (0, 1)):
        scores = np.array([[.9, .8], [.75, .72], [.6, .5], [.93, .95], [.55, .41], [.3, .33]], F32)[:, :n]
        if bg:
            scores = np.concatenate([np.full((6, 1), 0.99, F32), scores], 1)
        b = flexbuffers.Builder()
        with b.Map():
            for k, v in (("max_detections", mx), ("max_classes_per_detection", 1), ("detections_per_class", per), ("num_classes", n)):
                b.Key(k)
                b.Int(v)
            b.Key("use_regular_nms")
            b.Bool(True)
            for k, v in (("nms_score_threshold", sc), ("nms_iou_threshold", iou), ("y_scale", 10.0), ("x_scale", 10.0), ("h_scale", 5.0), ("w_scale", 5.0)):
                b.Key(k)
                b.Float(v)
        opts = bytes(b.Finish())

        def det(mb, x, y, opts=opts):
            return mb.op("CUSTOM", [x, y, mb.const(anchors)], [F32] * 4, custom="TFLite_Detection_PostProcess", custom_options=opts)
        s.add("detect/%d/%d_%d/%s/%s/bg%d" % (n, mx, per, iou, sc, bg), det, [([1, 6, 4], F32), ([1, 6, n + bg], F32)], [[boxes, scores[None]]])


def strings(s, tier):
    for words in (["a", "bc", "d"], ["", "xyz", ""], ["h\u00e9", "", "w"]):
        for ish in ([], [2], [2, 2]):
            def g(mb, i, words=words):
                return mb.op("GATHER", [mb.const(np.array(words, object)), i], ["string"], "GatherOptions", axis=0)
            s.add("gstr/%s/%s" % ("_".join(words), shp(ish)), g, [(ish, "int32")], [[(np.arange(int(np.prod(ish))).reshape(ish) * 2 % 3).astype(np.int32)]])


FAMILIES = [detection, strings, rfft1, unary, binary, reductions, shapes, nn, quantized, control]


def cases(tier):
    out = []
    for opset in ((18,) if tier == "quick" else (18, 15, 13, 11)):
        s = Suite(opset)
        for f in FAMILIES:
            f(s, tier)
        out += s.out
    return out
