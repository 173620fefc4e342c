"""TensorFlow graph -> ONNX -> onnxruntime, compared with TensorFlow itself on every feed of a case."""
import logging
import warnings

import numpy as np
import onnx
import onnxruntime as ort
import tensorflow as tf

import tf2onnx
from tf2onnx import optimizer, tfonnx
from mc.core import Case, Outcome, sig_of

warnings.filterwarnings("ignore")
v1 = tf.compat.v1
DEFAULT_OPSET = 18
NO_KERNEL = ("NOT_IMPLEMENTED", "NotImplemented", "Could not find an implementation")


def quiet():
    logging.disable(logging.CRITICAL)
    tf.get_logger().setLevel("FATAL")
    ort.set_default_logger_severity(4)
    np.seterr(all="ignore")


def make_case(cid, build, inputs, feeds, opset=DEFAULT_OPSET, tol=(1e-4, 1e-5), names=None, convert=None,
              check_shapes=True, post=None, kw=None, ref=None, direct=False):
    """build(*placeholders) -> tensor or list; inputs: [(shape with None, dtype)]; feeds: [[arrays]]"""
    return Case(cid, dict(build=build, inputs=inputs, feeds=feeds, opset=opset, tol=tol, names=names,
                          convert=convert, check_shapes=check_shapes, post=post, kw=kw or {}, ref=ref, direct=direct))


def np_dtype(dt):
    return object if dt == tf.string else tf.as_dtype(dt).as_numpy_dtype


def ort_session(model, extra_ops=False):
    so = ort.SessionOptions()
    so.intra_op_num_threads = 1
    so.inter_op_num_threads = 1
    so.log_severity_level = 4
    so.graph_optimization_level = ort.GraphOptimizationLevel.ORT_DISABLE_ALL
    if extra_ops:
        from onnxruntime_extensions import get_library_path
        so.register_custom_ops_library(get_library_path())
    data = model if isinstance(model, bytes) else model.SerializeToString()
    return ort.InferenceSession(data, sess_options=so, providers=["CPUExecutionProvider"])


def values_differ(want, got, tol=(1e-4, 1e-5)):
    """None when equal, else a short text"""
    want = np.asarray(want)
    got = np.asarray(got)
    if want.dtype.kind in "OSU" or got.dtype.kind in "OSU":
        def norm(a):
            return np.array([x.decode("utf-8", "replace") if isinstance(x, bytes) else str(x)
                             for x in a.reshape(-1).tolist()], dtype=object).reshape(a.shape)
        want, got = norm(want), norm(got)
        if want.shape != got.shape:
            return "shape %s != %s" % (want.shape, got.shape)
        return None if (want == got).all() else "strings differ: want %s got %s" % (want.tolist(), got.tolist())
    if want.dtype != got.dtype:
        if str(want.dtype) == "bfloat16":
            want = want.astype(np.float32)
        else:
            return "dtype %s != %s" % (want.dtype, got.dtype)
    if want.shape != got.shape:
        return "shape want %s got %s" % (want.shape, got.shape)
    if want.size == 0:
        return None
    if want.dtype.kind in "fc":
        rtol, atol = tol
        if want.dtype == np.float16:
            rtol, atol = max(rtol, 5e-3), max(atol, 5e-3)
        ok = np.isclose(got, want, rtol=rtol, atol=atol, equal_nan=True)
    else:
        ok = want == got
    if ok.all():
        return None
    bad = np.argwhere(~ok)[0].tolist()
    return "%d/%d values differ, first at %s: want %s got %s" % (
        int((~ok).sum()), ok.size, bad, want[tuple(bad)], got[tuple(bad)])


def feed_value(a):
    a = np.asarray(a)
    if a.dtype.kind in "SU":
        a = a.astype(object)
    return a


def shape_of(vi):
    t = vi.type.tensor_type
    if not t.HasField("shape"):
        return None
    return [d.dim_value if d.HasField("dim_value") else None for d in t.shape.dim]


def declared_wrong(vi, arr):
    """does a concrete value contradict the declared element type / shape?"""
    t = vi.type.tensor_type
    arr = np.asarray(arr)
    if t.elem_type:
        want = onnx.helper.tensor_dtype_to_np_dtype(t.elem_type)
        if want.kind in "OSU":
            if arr.dtype.kind not in "OSU":
                return "declared string, is %s" % arr.dtype
        elif arr.dtype != want:
            return "declared %s, is %s" % (want, arr.dtype)
    s = shape_of(vi)
    if s is not None:
        if len(s) != arr.ndim:
            return "declared rank %d, is %s" % (len(s), arr.shape)
        for d, a in zip(s, arr.shape):
            if d is not None and d != a:
                return "declared shape %s, is %s" % (s, arr.shape)
    return None


def graph_sig(model):
    return sig_of(tuple((n.op_type, n.domain, len(n.input), tuple(
        (a.name, a.i, a.f, tuple(a.ints), a.s) for a in n.attribute)) for n in model.graph.node))


def convert(g, in_names, out_names, opset=DEFAULT_OPSET, **kw):
    onnx_graph = tfonnx.process_tf_graph(g, opset=opset, input_names=in_names, output_names=out_names, **kw)
    onnx_graph = optimizer.optimize_graph(onnx_graph)
    return onnx_graph.make_model("mc")


class Built:
    pass


def build_joint(cases, ref=False):
    b = Built()
    b.graph = tf.Graph()
    b.parts = []
    with b.graph.as_default():
        v1.set_random_seed(1)
        for k, c in enumerate(cases):
            s = c.spec
            phs = []
            for j, (shape, dtype) in enumerate(s["inputs"]):
                phs.append(v1.placeholder(dtype, shape, name="in_%d_%d" % (k, j)))
            with tf.name_scope("c%d" % k):
                outs = ((s["ref"] if ref else None) or s["build"])(*phs)
            if not isinstance(outs, (list, tuple)):
                outs = [outs]
            if not s["direct"]:
                outs = [tf.identity(o, name="out_%d_%d" % (k, j)) for j, o in enumerate(outs)]
            b.parts.append((phs, outs))
    return b


def run_joint(cases):
    """Outcome for the group as a whole: all ok, or the first failure."""
    try:
        b = build_joint(cases)
    except Exception as e:  # pylint: disable=broad-except
        return Outcome("skip", "TensorFlow does not build it: %s" % str(e)[:300], evals=0)
    spec0 = cases[0].spec
    nfeeds = max(len(c.spec["feeds"]) for c in cases)
    feeds = []
    for i in range(nfeeds):
        fd = {}
        for c, (phs, _) in zip(cases, b.parts):
            vals = c.spec["feeds"][i % len(c.spec["feeds"])] if c.spec["feeds"] else []
            for p, v in zip(phs, vals):
                fd[p.name] = feed_value(v)
        feeds.append(fd)
    out_names = [o.name for _, outs in b.parts for o in outs]
    in_names = [p.name for phs, _ in b.parts for p in phs]
    want = []
    try:
        rb = build_joint(cases, ref=True) if any(c.spec["ref"] for c in cases) else b
        with v1.Session(graph=rb.graph) as sess:
            for fd in feeds:
                want.append(sess.run(out_names, feed_dict=fd))
    except Exception as e:  # pylint: disable=broad-except
        return Outcome("skip", "TensorFlow does not run it: %s" % str(e)[:300], evals=0)
    opset = spec0["opset"]
    conv = spec0["convert"] or convert
    try:
        with b.graph.as_default():
            model = conv(b.graph, in_names, out_names, opset=opset, **spec0["kw"])
    except Exception as e:  # pylint: disable=broad-except
        return Outcome("refused", "%s: %s" % (type(e).__name__, str(e)[:500]))
    return compare_model(model, feeds, want, out_names, [tol for c, (_, o) in zip(cases, b.parts)
                                                          for tol in [c.spec["tol"]] * len(o)],
                         post=spec0["post"], opset=opset)


def foreign_nodes(model):
    """nodes that no ONNX runtime knows: TensorFlow ops that leaked into the output"""
    bad = []

    def walk(g):
        for n in g.node:
            if n.domain in ("", "ai.onnx"):
                if not onnx.defs.has(n.op_type):
                    bad.append(n.op_type)
            elif n.domain not in ("ai.onnx.ml", "com.microsoft", "ai.onnx.contrib"):
                bad.append(n.domain + "." + n.op_type)
            for a in n.attribute:
                if a.HasField("g"):
                    walk(a.g)
    walk(model.graph)
    return bad


def compare_model(model, feeds, want, out_names, tols, post=None, opset=None, extra_ops=False):
    bad = foreign_nodes(model)
    if bad:
        return Outcome("foreign-op", "the model has ops no runtime knows: %s" % sorted(set(bad)))
    try:
        onnx.checker.check_model(model)
    except Exception as e:  # pylint: disable=broad-except
        # an output whose rank TensorFlow does not know either has no shape to declare
        if "Field 'shape' of 'type' is required" not in str(e) or all(shape_of(o) is not None for o in model.graph.output):
            return Outcome("invalid", "onnx.checker: %s" % str(e)[:500])
    try:
        sess = ort_session(model, extra_ops)
    except Exception as e:  # pylint: disable=broad-except
        t = "%s: %s" % (type(e).__name__, str(e)[:500])
        return Outcome("unrunnable" if any(k in t for k in NO_KERNEL) else "invalid", t)
    want_names = [o.name for o in sess.get_outputs()]
    if want_names != out_names:
        return Outcome("interface", "outputs %s instead of %s" % (want_names, out_names))
    have = {i.name for i in list(sess.get_inputs()) + list(sess.get_overridable_initializers())}
    evals = 0
    for fd, w in zip(feeds, want):
        try:
            got = sess.run(None, {k: v for k, v in fd.items() if k in have})
        except Exception as e:  # pylint: disable=broad-except
            t = "%s: %s" % (type(e).__name__, str(e)[:500])
            return Outcome("unrunnable" if any(k in t for k in NO_KERNEL) else "runtime",
                           t + " feeds " + short(fd))
        for n, a, c, tol, vi in zip(out_names, w, got, tols, model.graph.output):
            d = values_differ(a, c, tol)
            if d:
                return Outcome("mismatch", "%s: %s; feeds %s" % (n, d, short(fd)))
            d = declared_wrong(vi, c)
            if d:
                return Outcome("declared", "%s: %s; feeds %s" % (n, d, short(fd)))
            evals += 1
    if post:
        r = post(model)
        if r:
            return r
    return Outcome("ok", sig=graph_sig(model), evals=evals)


def short(fd):
    out = []
    for k, v in fd.items():
        v = np.asarray(v)
        out.append("%s%s=%s" % (k, list(v.shape), np.array2string(v.reshape(-1)[:12], separator=",")))
    return ("; ".join(out))[:600]


def run_group(cases):
    o = run_joint(cases)
    if len(cases) == 1:
        return [o]
    if o.kind == "ok":
        n = len(cases)
        return [Outcome("ok", sig=sig_of(o.sig), evals=o.evals // n + (1 if k < o.evals % n else 0))
                for k, _ in enumerate(cases)]
    return [Outcome(o.kind, o.detail, evals=0) for _ in cases]


def group_key(c):
    s = c.spec
    return (s["opset"], len(s["feeds"]), s["convert"], s["post"], repr(sorted(s["kw"].items())))


# ------------------------------------------------------------------ value alphabets
def ramp(shape, dtype, start=0, step=1):
    n = int(np.prod(shape)) if len(shape) else 1
    a = (np.arange(n) * step + start)
    return a.astype(dtype).reshape(shape)


_FL = np.array([0.5, -1.25, 2.0, -3.0, 0.0, 1.5, -0.75, 4.25, -2.5, 3.0, 0.25, -4.0, 1.0, -1.0, 2.75, -0.125, 5.5],
               np.float64)


def mixed(shape, dtype, salt=0):
    """deterministic signed non-monotone data"""
    n = int(np.prod(shape)) if len(shape) else 1
    dt = np.dtype(dtype)
    idx = (np.arange(n) * 7 + salt * 5 + 3)
    if dt.kind == "f":
        a = _FL[idx % len(_FL)] + 0.01 * (idx % 11)
    elif dt.kind == "b":
        a = (idx * 5 // 3) % 2
    elif dt.kind == "u":
        a = (idx * 5) % 23
    elif dt.kind == "c":
        a = _FL[idx % len(_FL)] + 1j * _FL[(idx + 5) % len(_FL)]
    else:
        a = (idx * 5) % 23 - 11
    return a.astype(dt).reshape(shape)


def shp(s):
    return "x".join("n" if d is None else str(d) for d in s) or "s"


def dyn(shape):
    return [None] * len(shape)


def compositions(n, k):
    """all ways to write n as an ordered sum of k non-negative integers"""
    if k == 1:
        yield (n,)
        return
    for i in range(n + 1):
        for rest in compositions(n - i, k - 1):
            yield (i,) + rest


class Suite:
    """collects cases; `add` refuses duplicate ids"""

    def __init__(self):
        self.out = []
        self.ids = set()

    def add(self, cid, build, inputs, feeds, opset=DEFAULT_OPSET, **kw):
        cid = cid + "/o%d" % opset
        if cid in self.ids:
            return
        self.ids.add(cid)
        self.out.append(make_case(cid, build, inputs, feeds, opset, **kw))


def define(module, pid, technique=None, rule=None, group=12, assumptions=()):
    """the boilerplate of a conversion-equivalence check"""
    module["ID"] = pid
    module["LEVEL"] = "exploration"
    module["TECHNIQUE"] = technique or ("bounded-exhaustive exploration of programs x attributes x shapes x feeds on the "
                                        "real converter, TensorFlow as reference model")
    module["RULE"] = rule or ("one program per point of the bounded attribute/shape/dtype space; every program is converted "
                              "by the code in /repo, run in onnxruntime on its whole feed alphabet and compared with "
                              "TensorFlow; non-trivial and distinct = distinct emitted op sequences")
    module["ASSUMPTIONS"] = ["TensorFlow CPU and onnxruntime CPU kernels are the references",
                             "float results are compared within rtol 1e-4 / atol 1e-5 unless a case says otherwise"] + list(assumptions)
    module["GROUP"] = group
    module["setup"] = quiet
    module["run_group"] = run_group
    module["group_key"] = group_key
