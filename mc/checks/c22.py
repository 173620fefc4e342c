"""C22: a model converted with external tensor storage is the same model."""
import contextlib
import io
import itertools
import os
import shutil
import tempfile
import zipfile

import numpy as np
import onnx
import onnxruntime as ort
import tensorflow as tf

from tf2onnx import convert, utils
from tf2onnx.graph import ExternalTensorStorage, GraphUtil
from mc import tfcase
from mc.core import Case, Outcome, sig_of
from mc.tfcase import mixed

ID = "C22"
LEVEL = "exploration"
TECHNIQUE = ("bounded-exhaustive exploration of programs with constants around the storage threshold through the real conversion with "
             "large_model, written to a zip and read back; TensorFlow and the inline conversion are the references")
RULE = ("every (size of the constants x type x place in the program x use x entry point); the zip is unpacked, loaded by onnxruntime from disk "
        "and compared with TensorFlow, and every tensor it stores with the inline conversion")
ASSUMPTIONS = ["onnxruntime's reading of external data is the reference for what a zip contains", "float results are compared within rtol 1e-4 / atol 1e-5"]
GROUP = 1
setup = tfcase.quiet


def val(n, dt, salt=0):
    if dt == "string":
        return np.array([("s%d" % (i + salt)).encode() for i in range(n)], object)
    if dt == "bool":
        return (np.arange(n) * 7 + salt) % 3 == 0
    if dt.startswith("complex"):
        return (np.arange(n) + 1j * salt).astype(dt)
    if dt.startswith("float"):
        return ((np.arange(n) * 37 + salt * 11) % 64 / 8.0 - 4).astype(dt)
    return ((np.arange(n) * 37 + salt * 11) % 100).astype(dt)


# ------------------------------------------------------------------------------------------ programs: make() -> function of x
def places(n, dt):
    """programs that use one or two constants of n elements"""
    def c(salt=0):
        return tf.constant(val(n, dt, salt), tf.string if dt == "string" else None)

    def plus(x, k):
        if dt == "string":
            return tf.where(tf.range(tf.size(x)) % 2 == 0, x, k) if k.shape != [1] else tf.where(tf.range(tf.size(x)) % 5 == 0, tf.tile(k, tf.shape(x)), x)
        if dt == "bool":
            return tf.not_equal(x, k)
        if dt in ("int8", "uint8"):
            return tf.cast(tf.cast(x, tf.int32) + tf.cast(k, tf.int32), x.dtype)
        return x + k
    def first(x, salt):
        if dt == "string":
            return tf.shape(x)[0] > salt
        return tf.equal(tf.cast(x[0], tf.float32), float(val(n, dt, salt)[0]))
    P = {}
    P["add"] = lambda: lambda x: plus(x, c())
    P["two"] = lambda: lambda x: plus(plus(x, c(1)), c(2))
    P["equal"] = lambda: lambda x: (plus(x, c(1)), plus(plus(x, c(2)), c(1)))
    P["out"] = lambda: lambda x: (plus(x, c(1)), tf.identity(c(3)))
    P["branch"] = lambda: lambda x: tf.cond(first(x, 1), lambda: plus(x, c(1)), lambda: plus(plus(x, c(2)), c(3)))
    P["named"] = lambda: lambda x: plus(plus(x, tf.constant(val(n, dt, 1), name="a/b")), tf.constant(val(n, dt, 2), name="a_b"))

    def loop():
        def f(x):
            k0 = c(4)
            def body(i, a):
                return i + 1, plus(plus(a, c(1)), k0)
            return tf.while_loop(lambda i, a: i < 3, body, [tf.constant(0), x])[1]
        return f
    P["loop"] = loop

    def var():
        if dt == "string":
            return None
        v = tf.Variable(val(n, dt, 5))
        w = tf.Variable(val(n, dt, 6))
        return (lambda x: plus(plus(x, v), w)), [v, w]
    P["var"] = var

    def varbranch():
        if dt == "string":
            return None
        v = tf.Variable(val(n, dt, 5))
        return (lambda x: tf.cond(first(x, 1), lambda: plus(x, v), lambda: plus(x, c(2)))), [v]
    P["varbranch"] = varbranch

    def small_in_body():
        """a small constant of a branch and a large one of the program, of the same name"""
        def f(x):
            a = plus(x, tf.constant(val(n, dt, 1), name="k"))
            return tf.cond(first(x, 1), lambda: plus(a, tf.constant(val(1, dt, 3), name="k")), lambda: plus(a, tf.constant(val(1, dt, 2), name="k")))
        return f
    P["samename"] = small_in_body

    def large_in_body():
        def f(x):
            a = plus(x, tf.constant(val(1, dt, 1), name="k"))
            return tf.cond(first(x, 1), lambda: plus(a, tf.constant(val(n, dt, 3), name="k")), lambda: plus(a, tf.constant(val(n, dt, 2), name="k")))
        return f
    P["samename2"] = large_in_body

    def both_large():
        def f(x):
            a = plus(x, tf.constant(val(n, dt, 1), name="k"))
            b = tf.while_loop(lambda i, t: i < 2, lambda i, t: (i + 1, plus(t, tf.constant(val(n, dt, 5), name="k"))), [tf.constant(0), a])[1]
            return tf.cond(first(x, 1), lambda: plus(b, tf.constant(val(n, dt, 3), name="k")), lambda: plus(b, tf.constant(val(n, dt, 2), name="k")))
        return f
    P["samename3"] = both_large
    def reentered(m=1):
        """large constants of the program that live in the name scopes of its branches and loop bodies"""
        def f(x):
            with tf.name_scope("cond/"):
                k1 = tf.constant(val(n, dt, 1), name="k")
            with tf.name_scope("while/"):
                k2 = tf.constant(val(n, dt, 2), name="k")
            b = tf.while_loop(lambda i, t: i < 2, lambda i, t: (i + 1, plus(t, tf.constant(val(m, dt, 5), name="k"))), [tf.constant(0), x], name="while")[1]
            d = tf.compat.v1.cond(first(x, 1), lambda: plus(b, tf.constant(val(m, dt, 3), name="k")), lambda: plus(b, tf.constant(val(m, dt, 4), name="k")), name="cond")
            return plus(plus(d, k1), k2)
        return f
    P["reentered"] = reentered
    P["reentered2"] = lambda: reentered(n)
    P["gather"] = lambda: lambda x: tf.gather(c(2), tf.cast(tf.range(tf.shape(x)[0]) % 3, tf.int32))
    P["shape"] = lambda: lambda x: plus(tf.reshape(tf.reshape(x, [1, -1]), tf.shape(c(3))), c(1))
    P["slice"] = lambda: lambda x: tf.concat([x, c(1)[1:n // 2], c(2)[n // 2:]], 0)
    P["fold"] = lambda: lambda x: plus(x, tf.reverse(c(1), [0]))
    P["concat"] = lambda: lambda x: tf.concat([c(1), x, c(2)], 0)
    return P


def nnp():
    """programs with weights"""
    def dense():
        w = tf.Variable(mixed((40, 50), np.float32, 1))
        b = tf.Variable(mixed((50,), np.float32, 2))
        return (lambda x: tf.nn.relu(tf.reshape(x, [-1, 40]) @ w + b)), [w, b]

    def shared():
        w = tf.Variable(mixed((40, 40), np.float32, 1))
        return (lambda x: (tf.reshape(x, [-1, 40]) @ w, tf.nn.tanh(tf.reshape(x, [-1, 40]) @ w) @ w)), [w]

    def conv():
        w = tf.Variable(mixed((3, 3, 8, 16), np.float32, 1))
        b = tf.Variable(mixed((16,), np.float32, 2))
        return (lambda x: tf.nn.conv2d(tf.reshape(x, [1, 5, 5, 8]), w, 1, "SAME") + b), [w, b]

    def convbn():
        w = tf.Variable(mixed((3, 3, 8, 16), np.float32, 1))
        ps = [tf.Variable(np.abs(mixed((16,), np.float32, k)) + 0.5) for k in range(4)]
        return (lambda x: tf.nn.batch_normalization(tf.nn.conv2d(tf.reshape(x, [1, 5, 5, 8]), w, 1, "SAME"), ps[0], ps[1], ps[2], ps[3], 1e-3)), [w] + ps

    def twoconv():
        w = tf.Variable(mixed((3, 3, 8, 8), np.float32, 1))
        return (lambda x: tf.nn.conv2d(tf.nn.conv2d(tf.reshape(x, [1, 5, 5, 8]), w, 1, "SAME"), w, 1, "VALID")), [w]

    def embed():
        w = tf.Variable(mixed((64, 32), np.float32, 1))
        return (lambda x: tf.gather(w, tf.cast(tf.abs(tf.reshape(x, [-1])[:7]) * 10, tf.int32))), [w]

    def lstm():
        import tf_keras as keras
        layer = keras.layers.LSTM(12, return_sequences=True)
        layer(tf.zeros([2, 5, 20]))
        layer(tf.zeros([2, 5, 20]))
        layer.set_weights([mixed(w.shape, np.float32, k) * 0.2 for k, w in enumerate(layer.get_weights())])
        return (lambda x: layer(tf.reshape(x, [2, 5, 20]))), [layer]

    def gru():
        import tf_keras as keras
        layer = keras.layers.Bidirectional(keras.layers.GRU(12, return_sequences=True))
        layer(tf.zeros([2, 5, 20]))
        layer.set_weights([mixed(w.shape, np.float32, k) * 0.2 for k, w in enumerate(layer.get_weights())])
        return (lambda x: layer(tf.reshape(x, [2, 5, 20]))), [layer]
    table = dict(dense=dense, shared=shared, conv=conv, convbn=convbn, twoconv=twoconv, embed=embed, lstm=lstm, gru=gru)
    return table


def keras_model(which):
    import tf_keras as keras
    keras.backend.clear_session()
    L = keras.layers
    if which == "seq":
        m = keras.Sequential([L.InputLayer((8, 8, 3)), L.Conv2D(16, 3), L.BatchNormalization(), L.ReLU(), L.Conv2D(16, 3, padding="same"), L.Flatten(), L.Dense(10)])
    elif which == "multi":
        a, b = keras.Input((30,), name="in_a"), keras.Input((40,), name="in_b")
        d = L.Dense(40)
        h = d(a) + b
        m = keras.Model([a, b], [L.Dense(30, name="o1")(h), L.Dense(5, name="o2")(h)])
    else:
        a = keras.Input((6,), dtype="int32", name="tok")
        m = keras.Model(a, L.Dense(3)(L.LSTM(16)(L.Embedding(100, 24)(a))))
    m.set_weights([(np.abs(mixed(w.shape, np.float32, k)) if "moving_variance" in v.name else mixed(w.shape, np.float32, k) * 0.2) for k, (w, v) in enumerate(zip(m.get_weights(), m.weights))])
    return m


def convert_both(s, work):
    """-> (want, feeds, zip path, in-memory pair, inline model)"""
    zp = os.path.join(work, "sub", "m.zip")
    if s["kind"] == "keras":
        m = keras_model(s["which"])
        ins = m.inputs
        feeds = []
        for q in range(2):
            feeds.append([mixed((2,) + tuple(t.shape[1:]), np.float32, q) if t.dtype == tf.float32 else (np.arange(12).reshape(2, 6) * (q + 3) % 100).astype(np.int32) for t in ins])
        want = [[np.asarray(t) for t in tf.nest.flatten(m(f if len(f) > 1 else f[0]))] for f in feeds]
        big = convert.from_keras(m, opset=s["opset"], large_model=True, output_path=zp)
        inline, _ = convert.from_keras(m, opset=s["opset"])
        return want, feeds, zp, big, inline
    made = s["make"]()
    if made is None:
        return None
    fn = made[0] if isinstance(made, tuple) else made
    sig = [tf.TensorSpec(s["shape"], s["dtype"], name="x0")]
    func = tf.function(lambda x: fn(x), input_signature=sig, autograph=False)  # pylint: disable=unnecessary-lambda
    feeds = [[f] for f in s["feeds"]]
    want = [[np.asarray(t) for t in tf.nest.flatten(func(tf.constant(f[0].tolist(), tf.string) if s["dtype"] == "string" else tf.constant(f[0])))] for f in feeds]
    if s["kind"] == "function":
        big = convert.from_function(func, input_signature=sig, opset=s["opset"], large_model=True, output_path=zp)
        inline, _ = convert.from_function(func, input_signature=sig, opset=s["opset"])
    else:
        from tensorflow.python.framework.convert_to_constants import convert_variables_to_constants_v2
        cf = convert_variables_to_constants_v2(func.get_concrete_function(), lower_control_flow=False)
        gd = cf.graph.as_graph_def()
        kw = dict(input_names=[t.name for t in cf.inputs], output_names=[t.name for t in cf.outputs], opset=s["opset"])
        big = convert._convert_common(gd, name="m", large_model=True, output_path=zp, **kw)
        gd = cf.graph.as_graph_def()
        inline, _ = convert._convert_common(gd, name="m", **kw)
    return want, feeds, zp, big, inline


def tensors(model):
    """(name, tensor) of every initializer and tensor attribute, nested graphs included"""
    todo = [model.graph]
    while todo:
        g = todo.pop()
        for t in g.initializer:
            yield t
        for n in g.node:
            for a in n.attribute:
                if a.type == onnx.AttributeProto.GRAPH:
                    todo.append(a.g)
                elif a.type == onnx.AttributeProto.TENSOR:
                    yield a.t


def run_case(case):
    s = case.spec
    work = tempfile.mkdtemp(prefix="mc_c22_")
    try:
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                r = convert_both(s, work)
        except Exception as e:  # pylint: disable=broad-except
            return Outcome("refused", "%s: %s" % (type(e).__name__, str(e)[:400]))
        if r is None:
            return Outcome("skip", "no such program", evals=0)
        want, feeds, zp, (proto, storage), inline = r
        bad = compare_stored(proto, storage)
        if bad:
            return Outcome("stored", bad)
        d = os.path.join(work, "x")
        with zipfile.ZipFile(zp) as z:
            names = z.namelist()
            if len(set(names)) != len(names):
                return Outcome("zip", "duplicate entries: %s" % names)
            if any(os.path.isabs(n) or ".." in n.split("/") for n in names):
                return Outcome("zip", "entries outside the archive: %s" % names)
            z.extractall(d)
        back = ExternalTensorStorage()
        again = utils.model_proto_from_zip(zp, back)
        if again.SerializeToString(deterministic=True) != proto.SerializeToString(deterministic=True) or back.name_to_tensor_data != storage.name_to_tensor_data:
            return Outcome("zip", "the archive does not read back as the converted model")
        path = os.path.join(d, "__MODEL_PROTO.onnx")
        used = set()
        for t in tensors(proto):
            if t.data_location == onnx.TensorProto.EXTERNAL:
                used.update(e.value for e in t.external_data if e.key == "location")
        if used != set(storage.name_to_tensor_data):
            return Outcome("zip", "stored %s, referenced %s" % (sorted(storage.name_to_tensor_data), sorted(used)))
        try:
            onnx.checker.check_model(path)
        except Exception as e:  # pylint: disable=broad-except
            return Outcome("invalid", "onnx.checker: %s" % str(e)[:300])
        bad = run(path, inline, feeds, want, s)
        if bad:
            return Outcome(*bad)
        # the directory that save_onnx_model writes is the same model
        p2 = utils.save_onnx_model(os.path.join(work, "y"), "m", {}, proto, external_tensor_storage=storage)
        bad = run(p2, inline, feeds, want, s)
        if bad:
            return Outcome(*bad)
        return Outcome("ok", sig=sig_of(tfcase.graph_sig(proto), len(used)), evals=2 * sum(map(len, want)) + len(used))
    finally:
        shutil.rmtree(work, ignore_errors=True)


def compare_stored(proto, storage):
    """large tensors, and only they, are stored, completely"""
    have = []
    for t in tensors(proto):
        if t.data_location == onnx.TensorProto.EXTERNAL:
            loc = [e.value for e in t.external_data if e.key == "location"]
            if len(loc) != 1 or loc[0] not in storage.name_to_tensor_data:
                return "tensor %s refers to %s, which is not stored" % (t.name, loc)
            have.append((t.data_type, tuple(t.dims), bytes(storage.name_to_tensor_data[loc[0]])))
        else:
            if np.prod(t.dims) > storage.external_tensor_size_threshold and t.data_type != onnx.TensorProto.STRING:
                return "tensor %s%s is above the threshold and inside the model" % (t.name, list(t.dims))
            have.append((t.data_type, tuple(t.dims), content(t)))
    for dt, dims, data in have:
        if dt != onnx.TensorProto.STRING and len(data) != int(np.prod(dims, dtype=np.int64)) * np.dtype(onnx.helper.tensor_dtype_to_np_dtype(dt)).itemsize:
            return "a tensor of type %d and shape %s is stored as %d bytes" % (dt, dims, len(data))
    return None


def content(t):
    return b"\0".join(t.string_data) if t.data_type == onnx.TensorProto.STRING else onnx.numpy_helper.to_array(t).tobytes()


def run(path, inline, feeds, want, s):
    so = ort.SessionOptions()
    so.graph_optimization_level = ort.GraphOptimizationLevel.ORT_DISABLE_ALL
    so.log_severity_level = 4
    so.intra_op_num_threads = 1
    try:
        sess = ort.InferenceSession(path, so, providers=["CPUExecutionProvider"])
    except Exception as e:  # pylint: disable=broad-except
        kind = "invalid"
        if any(k in str(e) for k in tfcase.NO_KERNEL):
            return "unrunnable", str(e)[:300]
        try:
            tfcase.ort_session(inline)
        except Exception:  # pylint: disable=broad-except
            return "invalid", "the inline model does not load either: %s" % str(e)[:300]
        return "unloadable", str(e)[:400]
    if [i.name for i in sess.get_inputs()] != [i.name for i in inline.graph.input] or [o.name for o in sess.get_outputs()] != [o.name for o in inline.graph.output]:
        return "interface", "the interface differs from the inline conversion"
    outs = [o.name for o in sess.get_outputs()]
    for f, w in zip(feeds, want):
        fd = {i.name: np.array([t.decode() for t in v], object) if v.dtype == object else tfcase.feed_value(v) for i, v in zip(sess.get_inputs(), f)}
        try:
            got = sess.run(outs, fd)
        except Exception as e:  # pylint: disable=broad-except
            return "runtime", str(e)[:300]
        for n, a, b in zip(outs, w, got):
            d = tfcase.values_differ(a, b, (1e-4, 1e-5))
            if d:
                return "mismatch", "%s: %s" % (n, d)
    return None


def run_group(cases):
    return [run_case(c) for c in cases]


def cases(tier):
    out = []
    big = tier == "thorough"
    sizes = (3, 126, 200, 251, 1024, 1025, 2000) if not big else (3, 125, 126, 127, 200, 250, 251, 500, 501, 1000, 1001, 1023, 1024, 1025, 1026, 2000, 4097)
    dts = ("float32", "int64", "int32", "float16", "float64", "bool", "string", "uint8", "int8")
    for n in sizes:
        for dt in dts:
            for place in places(n, dt):
                if not big and dt != "float32" and (n not in (200, 1025) and place != "add" or dt in ("uint8", "int8", "float16", "float64") and place not in ("add", "loop", "samename", "samename2", "out")):
                    continue
                if not big and n in (126, 251, 1024) and place not in ("add", "branch", "loop", "samename", "samename2", "samename3", "reentered", "reentered2"):
                    continue
                for kind in ("function", "graphdef"):
                    if kind == "graphdef" and not big and (dt != "float32" or n != 1025):
                        continue
                    make = (lambda n, dt, place: lambda: places(n, dt)[place]())(n, dt, place)
                    x = val(n, dt, 7)
                    y = val(n, dt, 1)
                    for sh in ([n],) + (([None],) if place in ("concat", "slice", "add") else ()):
                        out.append(Case("%s/%s/%d/%s%s" % (kind, place, n, dt, "" if sh[0] else "/dyn"),
                                        dict(kind=kind, make=make, shape=sh, dtype=dt, feeds=[x, y], opset=18)))
    for name in nnp():
        for kind in ("function", "graphdef"):
            for opset in (18, 13, 9):
                if opset == 9 and name == "gru" or not big and opset == 13 and kind == "function":
                    continue
                make = (lambda name: lambda: nnp()[name]())(name)
                out.append(Case("%s/nn/%s/o%d" % (kind, name, opset), dict(kind=kind, make=make, shape=[200], dtype="float32", feeds=[val(200, "float32", 1), val(200, "float32", 2)], opset=opset)))
    for which in ("seq", "multi", "rnn"):
        for opset in (18, 15, 11, 9):
            out.append(Case("keras/%s/o%d" % (which, opset), dict(kind="keras", which=which, opset=opset)))
    return out
