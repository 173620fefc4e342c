"""C24: a conversion depends on its arguments only, not on the conversions before it, the process or the hash seed."""
import collections
import contextlib
import copy
import io
import itertools
import os
import pickle
import re
import shutil
import subprocess
import sys
import tempfile
import time

import numpy as np
import onnx

from mc import tfcase
from mc.core import Case, Outcome, sig_of
from mc.tfcase import mixed

ID = "C24"
LEVEL = "model_checking"
TECHNIQUE = ("explicit exploration of all histories of conversions up to a length on the real converter, each in a process of its own; the last "
             "model of every history is compared with the model of the same conversion in a fresh process")
RULE = ("every ordered pair (thorough: triple) over an alphabet of conversions (entry points, options, handlers, rewriters, failures), and every letter "
        "under several hash seeds; non-trivial and distinct = distinct final models")
ASSUMPTIONS = ["models are compared up to the names of their inner nodes and tensors (generated names contain a process-wide counter)"]
GROUP = 1


def setup():
    tfcase.quiet()
    fill(NAMES)


# --------------------------------------------------------------------------------------------- shared arguments of the caller
class Shared:
    def __init__(self):
        from onnx import helper
        self.handlers = {}
        self.opsets = [helper.make_opsetid("ai.onnx.converters.tensorflow", 1)]
        self.shape_override = {"x:0": [2, 4]}
        self.nchw = ["x:0"]
        self.ins, self.outs = ["x:0"], ["y:0"]
        self.rename = {"x:0": "first", "y:0": "last"}
        self.rewriters = []
        self.graph_def = None

    def image(self):
        return copy.deepcopy((self.opsets, self.shape_override, self.nchw, self.ins, self.outs, self.rename, sorted(self.handlers), len(self.rewriters),
                              self.graph_def.SerializeToString(deterministic=True) if self.graph_def is not None else None))


S = None


def fn_graph(fn, *specs):
    """GraphDef of a program with inputs x, x1.. and output y"""
    import tensorflow as tf
    g = tf.Graph()
    with g.as_default():
        xs = [tf.compat.v1.placeholder(d, s, name="x%s" % (k or "")) for k, (s, d) in enumerate(specs)]
        tf.identity(fn(*xs), name="y")
    return g.as_graph_def()


def canonical(gd):
    """library functions get the same names in every program"""
    from google.protobuf import text_format
    t = text_format.MessageToString(gd)
    names = [f.signature.name for f in gd.library.function]
    for k, n in enumerate(sorted(names, key=lambda n: re.sub(r"\d+", "", n))):
        t = t.replace('"%s"' % n, '"fn_%d"' % k)
    r = type(gd)()
    text_format.Parse(t, r)
    return r


def from_gd(gd, **kw):
    from tf2onnx import convert
    kw.setdefault("opset", 18)
    kw.setdefault("input_names", ["x:0"])
    kw.setdefault("output_names", ["y:0"])
    return convert.from_graph_def(gd, name="m", **kw)[0]


def letters():
    import tensorflow as tf
    from tf2onnx import constants, convert, optimizer
    L = collections.OrderedDict()
    f32 = tf.float32

    def relu(x):
        return tf.nn.relu(x) @ tf.constant(mixed((4, 3), np.float32))

    def act(x):
        return tf.tanh(tf.nn.relu(x) - 1.0) * tf.math.erf(x)

    def func(fn, *sig, **kw):
        sig = [tf.TensorSpec(s, d, name="x%d" % k) for k, (s, d) in enumerate(sig)]
        kw.setdefault("opset", 18)
        return convert.from_function(tf.function(lambda *a: fn(*a), input_signature=sig, autograph=False), input_signature=sig, **kw)[0]

    L["relu"] = lambda: func(relu, ([2, 4], f32))
    L["act"] = lambda: func(act, ([None, 4], f32))
    L["o9"] = lambda: func(act, ([None, 4], f32), opset=9)
    L["o13"] = lambda: func(lambda x: tf.reduce_sum(tf.nn.softmax(x), 1), ([2, 4], f32), opset=13)
    L["default"] = lambda: func(act, ([None, 4], f32), opset=None)

    def cond(k):
        return lambda x: tf.cond(tf.reduce_sum(x) > 0, lambda: x + k, lambda: x * (k + 1.0))

    def loop(k):
        return lambda x: tf.while_loop(lambda i, a: i < int(k) + 2, lambda i, a: (i + 1, a * k + tf.cast(i, f32)), [tf.constant(0), x])[1]
    L["cond"] = lambda: func(cond(2.0), ([2, 4], f32))
    L["loop"] = lambda: func(loop(2.0), ([2, 4], f32))
    for k in (2.0, 5.0):
        L["gcond%d" % k] = lambda k=k: from_gd(canonical(fn_graph(cond(k), ([2, 4], f32))))
        L["gloop%d" % k] = lambda k=k: from_gd(canonical(fn_graph(loop(k), ([2, 4], f32))))
    L["gbadcond"] = lambda: from_gd(canonical(fn_graph(lambda x: tf.cond(tf.reduce_sum(x) > 0, lambda: tf.linalg.expm(tf.matmul(x, x, transpose_b=True)), lambda: x[:, :2] @ x[:2]), ([2, 2], f32))))

    def neg_handler(ctx, node, name, args):
        node.type = "Neg"
        return node

    def abs_handler(ctx, node, name, args):
        node.type = "Abs"
        return node

    def bad_handler(ctx, node, name, args):
        raise ValueError("handler")
    L["hneg"] = lambda: func(act, ([2, 4], f32), custom_op_handlers={"Tanh": (neg_handler, [])}, extra_opset=[constants.TENSORFLOW_OPSET])
    L["habs"] = lambda: func(act, ([2, 4], f32), custom_op_handlers={"Tanh": (abs_handler, ["Abs"])})
    L["hbad"] = lambda: func(act, ([2, 4], f32), custom_op_handlers={"Relu": (bad_handler, [])})
    L["extra"] = lambda: func(act, ([2, 4], f32), extra_opset=[constants.TENSORFLOW_OPSET])
    L["sharedops"] = lambda: func(act, ([2, 4], f32), custom_ops={"Tanh": "my.domain"}, custom_op_handlers=S.handlers, extra_opset=S.opsets)
    L["shareddict"] = lambda: func(act, ([2, 4], f32), custom_op_handlers=S.handlers, extra_opset=S.opsets)
    L["ms"] = lambda: func(lambda x: tf.argsort(tf.nn.relu(x)), ([2, 4], f32), extra_opset=[onnx.helper.make_opsetid("com.microsoft", 1)])
    L["contrib"] = lambda: func(lambda s: tf.strings.upper(s), ([3], tf.string), extra_opset=[onnx.helper.make_opsetid("ai.onnx.contrib", 1)])

    def to_neg(g, ops):
        for op in ops:
            if op.type == "Relu":
                op.type = "Neg"
        return ops

    def broken(g, ops):
        raise RuntimeError("rewriter")
    L["rewriter"] = lambda: func(act, ([2, 4], f32), custom_rewriter=[to_neg])
    L["badrewriter"] = lambda: func(act, ([2, 4], f32), custom_rewriter=[broken])
    L["rename"] = lambda: from_gd(fn_graph(relu, ([2, 4], f32)), tensors_to_rename=S.rename)
    L["override"] = lambda: from_gd(fn_graph(act, ([None, None], f32)), shape_override=S.shape_override, input_names=S.ins, output_names=S.outs)
    L["nooverride"] = lambda: from_gd(fn_graph(act, ([None, None], f32)), input_names=S.ins, output_names=S.outs)
    conv = lambda x: tf.nn.conv2d(x, tf.constant(mixed((2, 2, 3, 4), np.float32)), 1, "SAME")
    L["nchw"] = lambda: from_gd(fn_graph(conv, ([1, 4, 4, 3], f32)), inputs_as_nchw=S.nchw, outputs_as_nchw=["y:0"])
    L["nhwc"] = lambda: from_gd(fn_graph(conv, ([1, 4, 4, 3], f32)))
    L["target"] = lambda: from_gd(fn_graph(conv, ([1, 4, 4, 3], f32)), target=["nhwc"])
    big = lambda x: x + tf.constant(mixed((40, 40), np.float32), name="k")

    def shared_gd(**kw):
        if S.graph_def is None:
            S.graph_def = fn_graph(big, ([40, 40], f32))
        return S.graph_def
    L["large"] = lambda: from_gd(shared_gd(), large_model=True)
    L["notlarge"] = lambda: from_gd(shared_gd())
    L["smallk"] = lambda: from_gd(fn_graph(lambda x: x + tf.constant([1., 2.], name="k"), ([3, 2], f32)))

    def keras(kind):
        import tf_keras as k
        k.backend.clear_session()
        m = k.Sequential([k.layers.InputLayer((4,)), k.layers.Dense(3), k.layers.Dense(2)]) if kind == "dense" else k.Sequential([k.layers.InputLayer((5, 3)), k.layers.LSTM(4)])
        m.set_weights([mixed(w.shape, np.float32, i) for i, w in enumerate(m.get_weights())])
        return convert.from_keras(m, opset=18)[0]
    L["keras"] = lambda: keras("dense")
    L["lstm"] = lambda: keras("lstm")
    L["opts"] = lambda: convert._convert_common(fn_graph(act, ([2, 4], f32)), name="m", input_names=["x:0"], output_names=["y:0"], opset=18,
                                                optimizers=collections.OrderedDict(list(optimizer._get_optimizers().items())[:2]))[0]
    L["strict"] = lambda: convert._convert_common(fn_graph(lambda x: tf.linalg.expm(x), ([2, 2], f32)), name="m", input_names=["x:0"], output_names=["y:0"], opset=18)[0]
    L["lenient"] = lambda: from_gd(fn_graph(lambda x: tf.linalg.expm(tf.nn.relu(x)), ([2, 2], f32)))
    L["badname"] = lambda: from_gd(fn_graph(act, ([2, 4], f32)), input_names=["nope:0"])
    L["badopset"] = lambda: func(lambda x: tf.linalg.det(x) + tf.random.normal([2]), ([2, 4, 4], f32), opset=7)
    L["rand"] = lambda: func(lambda x: x + tf.random.uniform(tf.shape(x), seed=3), ([2, 4], f32))

    def tflite(dequantize=False):
        from mc import tflcase
        fn = tf.function(lambda x: {"y": tf.nn.softmax(tf.nn.relu(x) @ tf.constant(mixed((4, 3), np.float32)))}, input_signature=[tf.TensorSpec([2, 4], f32, name="x")])
        buf = tf.lite.TFLiteConverter.from_concrete_functions([fn.get_concrete_function()], fn).convert()
        fd, path = tempfile.mkstemp(suffix=".tflite", prefix="mc_")
        try:
            with os.fdopen(fd, "wb") as f:
                f.write(buf)
            return convert.from_tflite(path, opset=18)[0]
        finally:
            os.remove(path)
    L["tflite"] = tflite

    def table():
        t = tf.lookup.StaticHashTable(tf.lookup.KeyValueTensorInitializer(tf.constant([1, 2, 3], tf.int64), tf.constant(["a", "b", "c"])), "?")
        from mc import fncase
        fn = tf.function(lambda x: t.lookup(x), input_signature=[tf.TensorSpec([3], tf.int64, name="x0")], autograph=False)
        return fncase.conv_trackable(fn, None, 18, {}, [t])
    L["table"] = table
    return L


ERR = "error"


def tensor_image(t):
    if t.data_location == onnx.TensorProto.EXTERNAL:
        return ("external", t.data_type, tuple(t.dims))
    return (t.data_type, tuple(t.dims), tuple(t.string_data) if t.data_type == onnx.TensorProto.STRING else onnx.numpy_helper.to_array(t).tobytes())


def structure(model):
    """the model up to the names of its nodes and inner tensors, the order of the variables of a loop and the order of the entries of a table"""
    def graph(g, env, depth, ranks=None):
        names = dict(env)
        for i in g.initializer:
            names[i.name] = sig_of("init", tensor_image(i))
        for k, i in enumerate(g.input):
            label = "in%d.%d" % (depth, ranks[k] if ranks else k)
            if depth:
                names[i.name] = label
            else:
                names.setdefault(i.name, label)
        rows = []
        for n in g.node:
            inputs = [names.get(i, "?" if i else "") for i in n.input]
            rank, outs = None, {k: k for k in range(len(n.output))}
            if n.op_type == "Loop":
                order = sorted(range(len(inputs) - 2), key=lambda k: inputs[2 + k])
                pos = {k: r for r, k in enumerate(order)}
                rank = [0, 1] + [2 + pos[k] for k in range(len(pos))]
                outs.update(pos)
                inputs = inputs[:2] + [inputs[2 + k] for k in order]
            attrs = []
            for a in sorted(n.attribute, key=lambda a: a.name):
                if a.type == onnx.AttributeProto.GRAPH:
                    rows_, outputs, n_in = graph(a.g, names, depth + 1, rank)
                    if n.op_type == "Loop":
                        outputs = outputs[:1] + tuple(outputs[1 + k] for k in order) + outputs[1 + len(order):]
                    attrs.append((a.name, rows_, outputs, n_in))
                elif a.type == onnx.AttributeProto.TENSOR:
                    attrs.append((a.name, tensor_image(a.t)))
                elif n.op_type == "CategoryMapper" and a.name in ("cats_int64s", "cats_strings"):
                    continue
                else:
                    attrs.append((a.name, a.SerializeToString(deterministic=True)))
            if n.op_type == "CategoryMapper":
                by = {a.name: a for a in n.attribute}
                attrs.append(sorted(zip(by["cats_int64s"].ints, by["cats_strings"].strings)))
            row = sig_of(n.op_type, n.domain, tuple(inputs), tuple(attrs))
            for k, o in enumerate(n.output):
                if o:
                    names[o] = "%s.%d" % (row, outs[k])
            rows.append(row)
        return (tuple(sorted(rows)), tuple(names.get(o.name, "?") for o in g.output), len(g.input))
    return graph(model.graph, {}, 0)


def interface(model):
    seen = {}
    out = []
    for v in list(model.graph.input) + list(model.graph.output):
        t = v.type.tensor_type
        dims = None
        if t.HasField("shape"):
            dims = tuple(d.dim_value if d.HasField("dim_value") else seen.setdefault(d.dim_param, "d%d" % len(seen)) if d.HasField("dim_param") else None
                         for d in t.shape.dim)
        out.append((v.name, v.type.WhichOneof("value"), t.elem_type, dims))
    return tuple(out)


def one(name):
    """the model of a letter, or that it is refused"""
    try:
        m = letters()[name]()
    except Exception as e:  # pylint: disable=broad-except
        return (ERR, type(e).__name__)
    ops = tuple((o.domain, o.version) for o in m.opset_import)
    io_ = interface(m)
    order = tuple(sorted(n.op_type for n in m.graph.node))
    return (structure(m), ops, io_, order, m.ir_version)


ARGS = ["extra_opset", "shape_override", "inputs_as_nchw", "input_names", "output_names", "tensors_to_rename", "custom_op_handlers", "custom_rewriter", "graph_def"]


def run_history(names):
    """in this process; -> (images of the models, complaint)"""
    global S
    S = Shared()
    S.graph_def = fn_big()
    bad = None
    out = []
    with contextlib.redirect_stdout(io.StringIO()):
        for n in names:
            before = S.image()
            out.append(one(n))
            after = S.image()
            if before != after:
                bad = bad or "%s changed an argument of its caller: %s" % (n, [a for a, x, y in zip(ARGS, before, after) if x != y])
    return out, bad


def fn_big():
    import tensorflow as tf
    return fn_graph(lambda x: x + tf.constant(mixed((40, 40), np.float32), name="k"), ([40, 40], tf.float32))


def in_child(names):
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rfd)
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 1)
            os.dup2(null, 2)
            data = pickle.dumps(run_history(names))
            with os.fdopen(wfd, "wb") as f:
                f.write(data)
        except BaseException as e:  # pylint: disable=broad-except
            os._exit(3)
        os._exit(0)
    os.close(wfd)
    with os.fdopen(rfd, "rb") as f:
        data = f.read()
    _, st = os.waitpid(pid, 0)
    if not data:
        raise RuntimeError("the process of %s died: status %s" % (names, st))
    return pickle.loads(data)


FRESH = {}


def fresh(name):
    if name not in FRESH:
        FRESH[name] = shared_fresh(name, True)
    return FRESH[name]


def shared_fresh(name, wait):
    """the workers of a run share the models of fresh processes through a folder"""
    folder = os.environ.get("MC_C24_FRESH")
    if not folder:
        return in_child([name])[0][0] if wait else None
    path = os.path.join(folder, name)
    try:
        os.close(os.open(path + ".lock", os.O_CREAT | os.O_EXCL))
        r = in_child([name])[0][0]
        with open(path + ".tmp", "wb") as f:
            pickle.dump(r, f)
        os.rename(path + ".tmp", path)
        return r
    except FileExistsError:
        pass
    for _ in range(1200 if wait else 0):
        if os.path.exists(path):
            with open(path, "rb") as f:
                return pickle.load(f)
        time.sleep(0.05)
    return in_child([name])[0][0] if wait else None


def done():
    if "MC_C24_FRESH" in os.environ:
        shutil.rmtree(os.environ["MC_C24_FRESH"], True)


def fill(names):
    k = os.getpid() * 5 % len(names)
    for n in names[k:] + names[:k]:
        shared_fresh(n, False)


def difference(a, b):
    if a == b:
        return None
    if a[0] == ERR or b[0] == ERR:
        return "%s instead of %s" % (b[:2] if b[0] == ERR else "a model", a[:2] if a[0] == ERR else "a model")
    for k, what in enumerate(("nodes", "opset imports", "interface", "the bag of nodes", "ir version")):
        if a[k] != b[k]:
            if what == "nodes":
                return "%s differ: %s instead of %s" % (what, collections.Counter(b[3]), collections.Counter(a[3]))
            return "%s differ: %s instead of %s" % (what, str(b[k])[:300], str(a[k])[:300])
    return None


def run_case(case):
    s = case.spec
    if "seed" in s:
        env = dict(os.environ, PYTHONHASHSEED=str(s["seed"]))
        r = subprocess.run([sys.executable, "-c", "import sys; sys.path.insert(0, %r); from mc.checks import c24; c24.dump(%r)" % (os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), s["letters"])],
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, check=False)
        i = r.stdout.rfind(b"##RESULT##")
        if i < 0:
            return Outcome("died", "the process with hash seed %s ends with status %s" % (s["seed"], r.returncode))
        got = pickle.loads(bytes.fromhex(r.stdout[i + 10:].decode().strip()))
        for n, m in got.items():
            d = difference(fresh(n), m)
            if d:
                return Outcome("seed", "%s with hash seed %s: %s" % (n, s["seed"], d))
        return Outcome("ok", sig=sig_of(s["letters"]), evals=len(got))
    names = s["names"]
    got, bad = in_child(names)
    if bad:
        return Outcome("argument", bad)
    for k, r in enumerate(got):
        d = difference(fresh(names[k]), r)
        if d:
            return Outcome("history", "%s after %s%s: %s" % (names[k], "" if k < 7 else "... ", names[max(k - 6, 0):k], d))
    return Outcome("ok", sig=sig_of(names), evals=len(names))


def dump(names):
    tfcase.quiet()
    out = {}
    for n in names:
        out[n] = in_child([n])[0][0]
    print("##RESULT##" + pickle.dumps(out).hex(), flush=True)


def run_group(cases):
    return [run_case(c) for c in cases]


NAMES = ["relu", "act", "o9", "o13", "default", "cond", "loop", "gcond2", "gloop2", "gcond5", "gloop5", "gbadcond", "hneg", "habs", "hbad", "extra",
         "sharedops", "shareddict", "ms", "contrib", "rewriter", "badrewriter", "rename", "override", "nooverride", "nchw", "nhwc", "target", "large",
         "notlarge", "smallk", "keras", "lstm", "opts", "strict", "lenient", "badname", "badopset", "rand", "tflite", "table"]
STATEFUL = ["gcond2", "gloop5", "gbadcond", "hneg", "hbad", "sharedops", "badrewriter", "rename", "override", "nchw", "large", "strict", "o9", "ms", "tflite", "table"]
PROBES = ["act", "extra", "shareddict", "gcond5", "gloop2", "nooverride", "nhwc", "notlarge", "smallk", "relu", "lstm", "contrib"]


QUICK = ["act", "o9", "gcond2", "gloop5", "hneg", "hbad", "extra", "sharedops", "shareddict", "badrewriter", "rename", "override", "nooverride", "nchw", "nhwc", "large",
         "notlarge", "smallk", "strict", "badname", "table"]


def tour(names):
    """a closed walk over every ordered pair (a, a too)"""
    n = len(names)
    left = {i: list(range(n)) for i in range(n)}
    stack, walk = [0], []
    while stack:
        v = stack[-1]
        if left[v]:
            stack.append(left[v].pop())
        else:
            walk.append(stack.pop())
    return [names[i] for i in walk]


def cases(tier):
    if "MC_C24_FRESH" not in os.environ:
        os.environ["MC_C24_FRESH"] = tempfile.mkdtemp(prefix="mc_c24_")
    out = []
    names = NAMES if tier == "thorough" else QUICK
    walk = tour(names)
    size = 12 if tier == "quick" else 14
    for k in range(0, len(walk) - 1, size):
        out.append(Case("walk/%d" % k, dict(names=walk[k:k + size + 1])))
    if tier == "thorough":
        for n in NAMES:
            out.append(Case("again/%s" % n, dict(names=[n, n, n])))
        for a, b in itertools.permutations(NAMES, 2):
            out.append(Case("pair/%s-%s" % (a, b), dict(names=[a, b])))
        for a, b in itertools.permutations(STATEFUL, 2):
            for c in PROBES:
                if c not in (a, b):
                    out.append(Case("triple/%s-%s-%s" % (a, b, c), dict(names=[a, b, c])))
    else:
        for n in NAMES:
            if n not in QUICK:
                out.append(Case("again/%s" % n, dict(names=["gcond2", n, n])))
    for seed in (1, 2) if tier == "quick" else range(1, 9):
        step = 21 if tier == "quick" else 7
        for k in range(0, len(NAMES), step):
            out.append(Case("seed/%d/%s" % (seed, NAMES[k]), dict(seed=seed, letters=NAMES[k:k + step])))
    return out
