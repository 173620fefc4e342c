"""C33: a converted tfjs graph model computes what the TensorFlow graph it was written from computes."""
import base64
import collections
import itertools
import shutil
import tempfile

import numpy as np
import tensorflow as tf
from tf2onnx import optimizer, tfonnx

from mc import tfcase, tfjscase
from mc.checks import c14
from mc.core import Case
from mc.tfcase import Suite, mixed

tfcase.define(globals(), "C33", rule="one program per (operator family of C01-C08, C10, C12; 1 quick, 3 thorough, evenly spread) written as a tfjs graph model, and every way of writing one (weights: types, "
              "quantization, shards, compression; attributes; names of outputs; signature; control flow), read back, converted, run and compared with TensorFlow", group=6)


R = tf.raw_ops
F = "float32"


class Js:
    """the way through tfjs. names: 'given' | 'signature' | 'leaves' (who names the outputs)"""

    def __init__(self, name, given="given", refuse=None, default=None, **kw):
        self.__name__ = name
        self.given, self.refuse, self.default, self.kw = given, refuse, default, kw

    def read(self, path, ins, outs, opset, kw):
        return tfonnx.process_tf_graph(None, opset=opset, input_names=ins, output_names=outs, tfjs_path=path, **kw)

    def __call__(self, g, ins, outs, opset, **kw):
        d = tempfile.mkdtemp(prefix="mc_js_")
        kw = dict(kw)
        names = {}
        try:
            scalars = {n + ":0": [] for n in (i.split(":")[0] for i in ins) if g.get_tensor_by_name(n + ":0").shape.rank == 0}
            kw["shape_override"] = dict(kw.get("shape_override") or {}, **scalars)   # as the converter asks for: tfjs does not tell a scalar from an unknown shape
            gd = g.as_graph_def()
            if self.refuse:
                path = tfjscase.write(gd, d, outs, ins, bad=self.refuse, **self.kw)
                try:
                    self.read(path, ins, outs, opset, kw)
                except ValueError:
                    pass
                else:
                    raise AssertionError("ACCEPTED: a model that is %s" % self.refuse)
            path = tfjscase.write(gd, d, outs, ins, signature=self.given == "signature", **self.kw)
            if self.default:
                kw[self.default] = [n.name for n in gd.node if n.op == "PlaceholderWithDefault"]
            if self.given == "given":
                graph = self.read(path, ins, outs, opset, kw)
            else:
                graph = self.read(path, None, None, opset, kw)
                if self.given == "signature":
                    names.update({"in%d" % k: n for k, n in enumerate(ins)})
                    names.update({"out%d" % k: n for k, n in enumerate(outs)})
        finally:
            shutil.rmtree(d)
        model = optimizer.optimize_graph(graph).make_model("mc")
        if self.given == "signature":
            have = [v.name for v in model.graph.output]
            assert have == ["out%d" % k for k, _ in enumerate(outs)], "OUTPUTS: %s" % have
            assert {v.name for v in model.graph.input} <= {"in%d" % k for k, _ in enumerate(ins)}, "INPUTS"
            tfjscase.renamed(model, names)
        return model


PLAIN = Js("plain")
WAYS = {"shards2": Js("shards2", shards=2), "shards5": Js("shards5", shards=5), "shards12": Js("shards12", shards=12), "groups2": Js("groups2", groups=2), "groups3b": Js("groups3b", groups=3, shards=2, backwards=True), "zipped": Js("zipped", zipped=True, shards=2), "ints": Js("ints", bytes_as_ints=True), "port0": Js("port0", ports="zero"),
        "nofmt": Js("nofmt", fmt=None), "signature": Js("signature", "signature"), "sigports": Js("sigports", "signature", ports="zero"), "leaves": Js("leaves", "leaves"),
        "layers": Js("layers", refuse="layers"), "long": Js("long", refuse="long"), "sigzip": Js("sigzip", "signature", zipped=True, shards=3, bytes_as_ints=True)}
QUANT = {q: Js("q" + q, quant=q) for q in ("uint8", "uint16", "float16")}


def fuse_depthwise(topo):
    """DepthwiseConv2dNative, BiasAdd, Relu/Relu6 -> FusedDepthwiseConv2dNative, as the exporter does"""
    by = {n["name"]: n for n in topo["node"]}
    users = collections.Counter(i.split(":")[0] for n in topo["node"] for i in n.get("input", []))
    drop = set()
    for n in topo["node"]:
        if n["op"] not in ("BiasAdd", "Relu", "Relu6"):
            continue
        act = [n["op"]] if n["op"] != "BiasAdd" else []
        b = by[n["input"][0]] if act else n
        if b["op"] != "BiasAdd" or act and users[b["name"]] != 1:
            continue
        c = by[b["input"][0]]
        if c["op"] != "DepthwiseConv2dNative" or users[c["name"]] != 1:
            continue
        if not act and any(m["op"] in ("Relu", "Relu6") and m["input"][0] == n["name"] for m in topo["node"]):
            continue
        drop |= {c["name"]} | ({b["name"]} if act else set())
        n["op"] = "FusedDepthwiseConv2dNative"
        n["input"] = c["input"] + b["input"][1:]
        n["attr"] = dict(c["attr"], fused_ops={"list": {"s": [base64.b64encode(x.encode()).decode() for x in ["BiasAdd"] + act]}}, num_args={"i": "1"}, epsilon={"f": 0.0001}, explicit_paddings={"list": {}})
    topo["node"] = [n for n in topo["node"] if n["name"] not in drop]


def fuse_prelu(topo):
    """Relu(x) + -a * Relu(-x) -> Prelu(x, a)"""
    by = {n["name"]: n for n in topo["node"]}
    for n in topo["node"]:
        if n["op"] == "AddV2" and by[n["input"][0]]["op"] == "Relu" and by[n["input"][1]]["op"] == "Mul":
            mul = by[n["input"][1]]
            n["op"] = "Prelu"
            n["input"] = [by[n["input"][0]]["input"][0], by[mul["input"][0]]["input"][0]]
            n["attr"] = {"T": n["attr"]["T"]}
    used = {i.split(":")[0] for n in topo["node"] for i in n.get("input", [])}
    topo["node"] = [n for n in topo["node"] if n["op"] not in ("Mul", "Neg", "Relu") or n["name"] in used]
    used = {i.split(":")[0] for n in topo["node"] for i in n.get("input", [])}
    topo["node"] = [n for n in topo["node"] if n["op"] not in ("Neg", "Relu") or n["name"] in used]


def colocated(topo):
    for n in topo["node"]:
        n.setdefault("attr", {})["_class"] = {"list": {"s": [base64.b64encode(b"loc:@nowhere").decode()]}}


FUSEDW, PRELU, CLASS = Js("fuseddw", edit=fuse_depthwise), Js("prelu", edit=fuse_prelu), Js("class", edit=colocated)


def programs():
    """{name: (function, inputs, feeds)}"""
    x = mixed([1, 5, 5, 2], F)
    v = mixed([2, 3], F)
    k = (np.round(mixed([2, 2, 2, 2], F, 3) * 8) / 8).astype(F)
    b = np.array([0.5, -1.25], F)
    img = [([1, 5, 5, 2], F)]
    vec = [([None, 3], F)]
    out = {
        "conv": (lambda x: tf.nn.relu(tf.nn.bias_add(tf.nn.conv2d(x, k, 1, "SAME"), b)), img, [[x]]),
        "convp": (lambda x: R.Conv2D(input=x, filter=k, strides=[1, 2, 1, 1], padding="EXPLICIT", explicit_paddings=[0, 0, 1, 0, 0, 2, 0, 0]), img, [[x]]),
        "einsum": (lambda v: tf.einsum("ab,cb->ca", v, tf.constant(mixed([4, 3], F, 2))), vec, [[v]]),
        "mlp": (lambda v: tf.nn.softmax(tf.matmul(tf.nn.relu(tf.matmul(v, tf.constant(mixed([3, 4], F, 1))) + mixed([4], F)), tf.constant(mixed([4, 2], F, 5)))), vec, [[v]]),
        "split": (lambda v: list(tf.split(v, 3, 1)) + [tf.concat(tf.split(v, [1, 2], 1)[::-1], 1)], vec, [[v]]),
        "split1": (lambda v: tf.split(v, 3, 1)[1] * 2, vec, [[v]]),
        "topk": (lambda v: [q for q in tf.math.top_k(v, 2)], vec, [[v]]),
        "string": (lambda v: [tf.constant([b"", b"ab", "\u00e9\u4e2d".encode(), b"x" * 300]), tf.where(v > 0, tf.constant("yes"), tf.constant("no"))], vec, [[v]]),
        "control": (lambda v: after(v), vec, [[v]]),
        "two": (lambda v, w: [v + w, v - w, w], [([None, 3], F), ([None, 3], F)], [[v, mixed([2, 3], F, 4)]]),
        "swap": (lambda v, w: [w * 2, v - w], [([None, 3], F), ([2, 3], F)], [[v, mixed([2, 3], F, 4)]]),
        "same": (lambda v: [v, v * 1.0 + 2], vec, [[v]]),
        "consts": (lambda v: [tf.constant(np.float32(3.5)), tf.constant([], "int32"), tf.constant([[True, False]]), v + 1, tf.constant([2 ** 31 - 1, -2 ** 31], "int64"), tf.constant(np.zeros([0, 3], F))], vec, [[v]]),
        "types": (lambda v: [tf.cast(v, t) + tf.constant([1, 2, 3], t) for t in ("int32", "int64", "float64", "float16")], vec, [[v]]),
    }
    return out


def after(v):
    a = tf.abs(v)
    with tf.control_dependencies([a]):
        c = tf.constant([1., 2., 3.]) + v
    with tf.control_dependencies([c]):
        return tf.identity(c * 2) + a


def flow():
    """functional control flow: a library of functions, Const nodes of functions, outputs as node:name:index"""
    from tensorflow.python.ops import cond_v2, control_flow_util
    v = mixed([2, 3], F)
    inp = [([2, 3], F), ([], "int32")]
    rows = [[v, np.int32(n)] for n in (0, 1, 3)]

    def cond(f, g):
        return lambda v, n: cond_v2.cond_v2(n > 1, lambda: f(v, n), lambda: g(v, n))

    def loop(c, b, *init):
        def run(v, n):
            flag = control_flow_util.ENABLE_CONTROL_FLOW_V2
            control_flow_util.ENABLE_CONTROL_FLOW_V2 = True
            try:
                r = tf.while_loop(lambda *s: c(v, n, *s), lambda *s: b(v, n, *s), [q(v, n) for q in init])
            finally:
                control_flow_util.ENABLE_CONTROL_FLOW_V2 = flag
            return list(r) if isinstance(r, (list, tuple)) else r
        return run
    body = {"add": lambda v, n: v + 1.5, "mul": lambda v, n: v * tf.constant([1., 2., 3.]) - 1., "split": lambda v, n: tf.split(v, 3, 1)[1] + v, "topk": lambda v, n: tf.math.top_k(v, 2)[0][:, :1] + v,
            "n": lambda v, n: tf.cast(n, F) + v * 0.5, "id": lambda v, n: tf.identity(v), "str": lambda v, n: tf.einsum("ab->ab", v) + 2.}
    out = {}
    for (ka, fa), (kb, fb) in itertools.product(body.items(), repeat=2):
        out["cond/%s_%s" % (ka, kb)] = (cond(fa, fb), inp, rows)
    for ka, fa in body.items():
        out["condn/" + ka] = (cond(fa, cond(fa, body["add"])), inp, rows)
        out["condwhile/" + ka] = (cond(lambda v, n, fa=fa: loop(lambda v, n, i, a: i < n, lambda v, n, i, a, fa=fa: [i + 1, fa(a, n)], lambda v, n: tf.constant(0), lambda v, n: v)(v, n)[1], body["mul"]), inp, rows)
        out["while/" + ka] = (loop(lambda v, n, i, a: i < n, lambda v, n, i, a, fa=fa: [i + 1, fa(a, n)], lambda v, n: tf.constant(0), lambda v, n: v), inp, rows)
        out["whilec/" + ka] = (loop(lambda v, n, i, a: tf.logical_and(i < 5, tf.reduce_sum(a) < 20.), lambda v, n, i, a, fa=fa: [i + 1, fa(a, i) + tf.constant([[0.5], [1.]])], lambda v, n: n, lambda v, n: v), inp, rows)
        out["whilecond/" + ka] = (loop(lambda v, n, i, a: i < 3, lambda v, n, i, a, fa=fa: [i + 1, cond(fa, body["mul"])(a, n + i)], lambda v, n: tf.constant(0), lambda v, n: v), inp, rows)
        out["while2/" + ka] = (loop(lambda v, n, i, a: i < n, lambda v, n, i, a, fa=fa: [i + 1, loop(lambda v, n, j, b: j < 2, lambda v, n, j, b, fa=fa: [j + 1, fa(b, n)], lambda v, n: tf.constant(0), lambda v, n: v)(a, i)[1] * 0.5],
                                    lambda v, n: tf.constant(0), lambda v, n: v), inp, rows)
    return out


def weights():
    """{name: (array, program)}"""
    out = {}
    for q, (lo, hi, n) in enumerate([(0, 255, 6), (-128, 127, 9), (-3, 7, 11), (5, 5, 1), (0, 1, 2), (-1000, 1000, 5), (0, 65535, 4), (-7, 300, 12), (2 ** 20, 2 ** 20 + 77, 8), (-1, 1, 3)]):
        w = np.unique(np.round(np.linspace(lo, hi, n))).astype(np.int32)
        out["i%d" % q] = w
        out["m%d" % q] = np.concatenate([w[::-1], w]).reshape(2, -1)
    for q, w in enumerate([[0., 1., 2.5, -3.], [[0.125, -0.125], [4., 0.]], 7.5, [1e-3, 2e-3, -5e4], [1. / 3, 2. / 3, 1.], [np.inf, -np.inf, np.nan, 0.], [65504., -65504., 6e-8]]):
        out["f%d" % q] = np.array(w, F)
    out["b"] = np.array([True, False])
    return out


def cases(tier):
    thorough = tier == "thorough"
    out = {}
    for src, c, j in c14.select("quick", 3 if thorough else 1, c14.SOURCES + ("c08",), sound=True):
        cid = "%s:%s" % (src, c.id)
        out[cid] = Case(cid, dict(c.spec, convert=PLAIN))
    s = Suite()
    for pn, (f, ins, feeds) in programs().items():
        for wn, way in dict(WAYS, plain=PLAIN, colocated=CLASS).items():
            if wn == "leaves" and pn in ("control", "topk"):
                continue
            for o in (18, 13) if thorough else (18,):
                s.add("way/%s/%s" % (wn, pn), f, ins, feeds, o, convert=way)
        for qn, way in QUANT.items():
            s.add("way/q%s/%s" % (qn, pn), f, ins, feeds, 18, convert=way)
    for wn, w in weights().items():
        for qn, way in dict(QUANT, none=PLAIN, zipped=WAYS["zipped"]).items():
            if w.dtype == bool:
                s.add("weight/%s/%s" % (wn, qn), lambda x, w=w: [tf.constant(w), tf.where(w, x, -x)], [([2, 2], F)], [[mixed([2, 2], F)]], 18, convert=way)
            else:
                s.add("weight/%s/%s" % (wn, qn), lambda x, w=w: [tf.constant(w), tf.cast(tf.constant(w), "float64") * 2, x + tf.reshape(tf.cast(w, F), [-1])[:1]], [([2], F)], [[mixed([2], F)]], 18, convert=way)
    for fn, (f, ins, feeds) in flow().items():
        for wn, way in {"plain": PLAIN, "signature": WAYS["signature"], "ints": WAYS["ints"]}.items():
            if wn == "plain" or thorough:
                s.add("flow/%s/%s" % (fn, wn), f, ins, feeds, 18, convert=way)
    x = mixed([1, 4, 4, 2], F)
    for m, st, pad, act, bias in itertools.product((1, 2), (1, 2), ("SAME", "VALID"), ("Relu", "Relu6", "", "id"), (0, 1)):
        def dw(x, m=m, st=st, pad=pad, act=act, bias=bias):
            c = R.DepthwiseConv2dNative(input=x, filter=mixed([2, 2, 2, m], F, 3), strides=[1, st, st, 1], padding=pad)
            y = R.BiasAdd(value=c, bias=mixed([2 * m], F, 5)) if bias else c
            return {"Relu": tf.nn.relu, "Relu6": tf.nn.relu6, "": tf.identity, "id": lambda y: y * 2}[act](y)
        for shape in ([1, 4, 4, 2], [None, None, None, 2]):
            s.add("fuseddw/%d_%d_%s_%s_%d/%s" % (m, st, pad, act or "none", bias, "dyn" if shape[0] is None else "st"), dw, [(shape, F)], [[x]], 18, convert=FUSEDW)
    for a, shape in itertools.product((0.25, [0.5, -0.5, 2.], [[0.1, 0.2, 0.3]], [[0.5], [1.5]]), ([2, 3], [None, 3], [None, None])):
        def prelu(v, a=a):
            al = tf.constant(np.array(a, F))
            return tf.nn.relu(v) + (-al) * tf.nn.relu(-v)
        s.add("prelu/%s/%s" % (np.array(a).size, len([d for d in shape if d])), prelu, [(shape, F)], [[mixed([2, 3], F)]], 18, convert=PRELU)
    for how, shape in itertools.product(("use_default", "ignore_default", "learning"), ([2, 3], [None, 3], [])):
        val = np.full([d or 2 for d in shape], 3.5, F)

        def pwd(v, how=how, val=val, shape=shape):
            p = tf.compat.v1.placeholder_with_default(val, shape, name="keras_learning_phase" if how == "learning" else "with_default")
            return [p * 2 + v, p]
        if how != "ignore_default":
            s.add("default/%s/%s" % (how, lab(shape)), pwd, [([2, 3], F)], [[mixed([2, 3], F)]], 18, convert=Js("d" + how, default=how if how != "learning" else None))
    for c in s.out:
        out[c.id] = c
    return list(out.values())


def lab(shape):
    return "x".join("n" if d is None else str(d) for d in shape) or "s"


def group_key(c):
    alone = c.id if c.id.startswith(("way/leaves", "default", "way/sig", "flow")) else ""
    return (c14.group_key(c), c.spec["convert"].__name__, alone)
