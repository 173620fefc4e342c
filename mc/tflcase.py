"""TFLite flatbuffers built operator by operator; the TFLite interpreter (reference kernels, no delegates) is the reference."""
import os
import tempfile

import numpy as np
import tensorflow as tf
from tensorflow.lite.python import schema_py_generated as S
from tensorflow.lite.tools import flatbuffer_utils as F

from tf2onnx import optimizer, tfonnx
from mc import tfcase
from mc.core import Case, Outcome

TT = {"float32": 0, "float16": 1, "int32": 2, "uint8": 3, "int64": 4, "string": 5, "bool": 6, "int16": 7, "complex64": 8, "int8": 9, "float64": 10, "uint32": 15, "uint16": 16}


def make_case(cid, build, inputs, feeds, opset=18, tol=(1e-4, 1e-5), dyn=False, dequantize=False, post=None):
    """build(mb, *tensors) -> list of tensors; inputs: [(shape, dtype[, (scale, zero)])]"""
    return Case(cid, dict(build=build, inputs=inputs, feeds=feeds, opset=opset, tol=tol, dyn=dyn, dequantize=dequantize, post=post))


class MB:
    """flatbuffer builder; one subgraph"""

    def __init__(self, top=None, name="main"):
        self.top = top or self
        self.sub = S.SubGraphT()
        self.sub.name = name.encode()
        self.sub.tensors, self.sub.operators, self.sub.inputs, self.sub.outputs = [], [], [], []
        if top is None:
            self.model = S.ModelT()
            self.model.version = 3
            self.model.description = b"mc"
            self.model.buffers = [S.BufferT()]
            self.model.operatorCodes = []
            self.model.subgraphs = [self.sub]
            self.codes = {}
            self.n = 0
        self.dyn = False
        self.shapes = {}

    def tensor(self, shape, dtype, quant=None, data=None, name=None, signature=None):
        t = S.TensorT()
        self.top.n += 1
        t.name = (name or "t%d" % self.top.n).encode()
        nm = t.name.decode()
        known = self.top.shapes.get(nm)
        if shape is None:
            shape = known if known is not None else []
            if self.top.dyn and known is not None:
                signature = [-1] * len(known)
        t.shape = np.array(shape, np.int32)
        if signature is not None:
            t.shapeSignature = np.array(signature, np.int32)
        t.type = TT[dtype]
        t.buffer = 0
        if data is not None:
            b = S.BufferT()
            b.data = np.frombuffer(np.ascontiguousarray(data).tobytes(), np.uint8)
            self.top.model.buffers.append(b)
            t.buffer = len(self.top.model.buffers) - 1
        if quant is not None:
            q = S.QuantizationParametersT()
            q.scale = np.array(np.atleast_1d(quant[0]), np.float32)
            q.zeroPoint = np.array(np.atleast_1d(quant[1]), np.int64)
            if len(quant) > 2:
                q.quantizedDimension = quant[2]
            t.quantization = q
        self.sub.tensors.append(t)
        return len(self.sub.tensors) - 1

    def const(self, arr, quant=None):
        arr = np.asarray(arr)
        if arr.dtype == object:
            items = [x.encode("utf-8") for x in arr.ravel()]
            offs = np.cumsum([4 * (len(items) + 2)] + [len(x) for x in items])
            data = np.concatenate([np.array([len(items)], "<i4"), offs.astype("<i4")]).tobytes() + b"".join(items)
            return self.tensor(list(arr.shape), "string", quant, data=np.frombuffer(data, np.uint8))
        return self.tensor(list(arr.shape), str(arr.dtype), quant, data=arr)

    def code(self, op, version, custom=None):
        key = (op, version, custom)
        if key not in self.top.codes:
            c = S.OperatorCodeT()
            c.builtinCode = getattr(S.BuiltinOperator, op)
            c.deprecatedBuiltinCode = min(c.builtinCode, 127)
            c.version = version
            if custom:
                c.customCode = custom.encode()
            self.top.codes[key] = len(self.top.model.operatorCodes)
            self.top.model.operatorCodes.append(c)
        return self.top.codes[key]

    def op(self, op, ins, outs, opts=None, version=1, custom=None, custom_options=None, **attrs):
        """outs: list of dtype or (dtype, quant) -> list of tensor indices"""
        o = S.OperatorT()
        o.opcodeIndex = self.code(op, version, custom)
        o.inputs = np.array(ins, np.int32)
        res = []
        for d in outs:
            if isinstance(d, tuple):
                res.append(self.tensor(None, d[0], d[1]))
            else:
                res.append(self.tensor(None, d))
        o.outputs = np.array(res, np.int32)
        if opts:
            ob = getattr(S, opts + "T")()
            for k, v in attrs.items():
                assert hasattr(ob, k), (opts, k)
                setattr(ob, k, v)
            o.builtinOptions = ob
            o.builtinOptionsType = getattr(S.BuiltinOptions, opts)
        if custom_options is not None:
            o.customOptions = np.frombuffer(custom_options, np.uint8)
            o.customOptionsFormat = 0
        self.sub.operators.append(o)
        return res

    def subgraph(self, name, unique=True):
        s = MB(self.top, "%s_%d" % (name, len(self.top.model.subgraphs)) if unique else name)
        self.top.model.subgraphs.append(s.sub)
        return s, len(self.top.model.subgraphs) - 1


def assemble(cases, shapes=None):
    mb = MB()
    mb.shapes = shapes or {}
    mb.dyn = any(c.spec["dyn"] for c in cases)
    names_in, names_out = [], []
    ins, outs = [], []
    for k, c in enumerate(cases):
        ts = []
        for j, i in enumerate(c.spec["inputs"]):
            nm = "in_%d_%d" % (k, j)
            sig = [-1] * len(i[0]) if c.spec["dyn"] else None
            ts.append(mb.tensor(list(i[0]), i[1], i[2] if len(i) > 2 else None, name=nm, signature=sig))
            names_in.append(nm)
        ins += ts
        res = c.spec["build"](mb, *ts)
        for r in res:
            outs.append(r)
            names_out.append(mb.sub.tensors[r].name.decode())
    mb.sub.inputs = np.array(ins, np.int32)
    mb.sub.outputs = np.array(outs, np.int32)
    return mb, names_in, names_out, bytes(F.convert_object_to_bytearray(mb.model))


def interpreter(buf):
    return tf.lite.Interpreter(model_content=buf, num_threads=1, experimental_preserve_all_tensors=True,
                               experimental_op_resolver_type=tf.lite.experimental.OpResolverType.BUILTIN_WITHOUT_DEFAULT_DELEGATES)


def convert(path, opset, dequantize=False, optimize=True):
    g = tfonnx.process_tf_graph(None, opset=opset, tflite_path=path, dequantize=dequantize)
    if optimize:
        g = optimizer.optimize_graph(g)
    return g.make_model("mc")


def run_joint(cases):
    try:
        _, _, _, buf = assemble(cases)
        it = interpreter(buf)
        it.allocate_tensors()
        shapes = {}
        for d in it.get_tensor_details():
            shapes[d["name"]] = d["shape"].tolist()
        _, names_in, names_out, buf = assemble(cases, shapes)
        it = interpreter(buf)
        it.allocate_tensors()
        want, feeds = [], []
        byname = {d["name"]: d["index"] for d in it.get_input_details()}
        outidx = [d["index"] for d in it.get_output_details()]
        for i in range(max(len(c.spec["feeds"]) for c in cases)):
            fd = {}
            for k, c in enumerate(cases):
                fs = c.spec["feeds"]
                for j, v in enumerate(fs[i % len(fs)] if fs else []):
                    fd["in_%d_%d" % (k, j)] = np.asarray(v)
            for n, v in fd.items():
                it.set_tensor(byname[n], v)
            it.invoke()
            want.append([it.get_tensor(o).copy() for o in outidx])
            feeds.append(fd)
    except Exception as e:  # pylint: disable=broad-except
        return Outcome("skip", "the TFLite interpreter does not run it: %s" % str(e)[:300], evals=0)
    return check_buffer(buf, feeds, want, names_out, tols_for(cases), cases[0].spec["opset"], cases[0].spec["dequantize"], cases[0].spec["post"])


def tols_for(cases):
    out = []
    for c in cases:
        _, _, names, _ = assemble([c])
        out += [c.spec["tol"]] * len(names)
    return out


def check_buffer(buf, feeds, want, names_out, tols, opset, dequantize=False, post=None):
    fd, path = tempfile.mkstemp(suffix=".tflite", prefix="mc_")
    with os.fdopen(fd, "wb") as f:
        f.write(buf)
    try:
        model = convert(path, opset, dequantize)
    except Exception as e:  # pylint: disable=broad-except
        return Outcome("refused", "%s: %s" % (type(e).__name__, str(e)[:500]))
    finally:
        os.remove(path)
    return tfcase.compare_model(model, feeds, want, names_out, tols, post=post, opset=opset)


def run_group(cases):
    o = run_joint(cases)
    if len(cases) == 1:
        return [o]
    if o.kind == "ok":
        n = len(cases)
        return [Outcome("ok", sig=o.sig, evals=o.evals // n + (1 if k < o.evals % n else 0)) for k in range(n)]
    return [Outcome(o.kind, o.detail, evals=0) for _ in cases]


def group_key(c):
    s = c.spec
    if c.id.startswith(("conv3d", "gstr")):
        return c.id  # conv3d: the reference interpreter clobbers an element when several share a graph; gstr: no static shapes
    return (s["opset"], s["dyn"], s["dequantize"], len(s["feeds"]), s["post"])


setup = tfcase.quiet
