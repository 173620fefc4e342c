"""C15: the converted model has exactly the requested inputs and outputs: names, order, types, shapes, layout, values."""
import itertools

import numpy as np
import tensorflow as tf

from tf2onnx import convert, optimizer, tf_loader, tf_utils, tfonnx
from mc import tfcase
from mc.core import Case, Outcome
from mc.tfcase import mixed, shape_of, v1

tfcase.define(globals(), "C15", rule="one conversion per point of program x ordered selection of input tensors x ordered selection of output tensors x renaming x layout request x "
              "treatment of defaults x entry point; compared with TensorFlow fed and fetched at exactly these tensors", group=1)

F = tf.float32
S4 = (2, 3, 4, 5)


# ---------------------------------------------------------------- programs: name -> tensor
def p_mix(dyn):
    sh = [None] * 4 if dyn else list(S4)
    x = v1.placeholder(F, sh, name="x")
    y = v1.placeholder(F, sh, name="y")
    s = tf.add(x, y, name="s")
    k = tf.constant(mixed((3, 3, 5, 5), np.float32) / 4)
    t = tf.nn.conv2d(s, k, 1, "SAME", name="t")
    u = tf.nn.relu(t, name="u")
    tf.multiply(s, 2.0, name="v")
    tf.shape(x, name="w")
    tf.identity(x, name="ix")
    tf.transpose(u, [0, 3, 1, 2], name="tr")
    tf.nn.max_pool2d(s, 2, 1, "VALID", name="mp")
    tf.subtract(u, y, name="d")
    tf.split(s, [2, 3], axis=3, name="sp")
    v1.placeholder(tf.int32, [2], name="unused")
    tf.constant(mixed((2, 2), np.float32), name="c")


def p_loop(dyn):
    sh = [None] * 4 if dyn else list(S4)
    x = v1.placeholder(F, sh, name="x")
    n = v1.placeholder(tf.int32, [], name="n")
    out = tf.while_loop(lambda i, a: i < n, lambda i, a: (i + 1, a + x * tf.cast(i, F)), [tf.constant(0), x])
    tf.identity(out[1], name="acc")
    tf.identity(out[0], name="cnt")
    tf.identity(tf.cond(n > 1, lambda: x * 2, lambda: x - 1), name="cd")


def p_default(dyn):
    x = v1.placeholder(F, [None] if dyn else [3], name="x")
    d = v1.placeholder_with_default(np.array([1., 2., 3.], np.float32), [None] if dyn else [3], name="d")
    e = v1.placeholder_with_default(True, [], name="e")
    s = tf.add(x, d, name="s")
    tf.where(e, s, s * 10, name="t")
    tf.identity(d, name="q")


PROG = {"mix": p_mix, "loop": p_loop, "default": p_default}
FEED = {
    "x": lambda k: mixed(S4, np.float32, k), "y": lambda k: mixed(S4, np.float32, k + 3), "s": lambda k: mixed(S4, np.float32, k + 5),
    "t": lambda k: mixed(S4, np.float32, k + 6), "u": lambda k: mixed(S4, np.float32, k + 7), "n": lambda k: np.array(k, np.int32),
    "unused": lambda k: np.array([1, 2], np.int32), "d": lambda k: mixed((3,), np.float32, k), "e": lambda k: np.array(k % 2 == 0),
    "sp:1": lambda k: mixed((2, 3, 4, 3), np.float32, k), "ix": lambda k: mixed(S4, np.float32, k + 8)}


def T(n):
    return n if ":" in n else n + ":0"


def add(out, ids, cid, prog="mix", ins=("x", "y"), outs=("u",), dyn=0, rename=None, inchw=(), onchw=(), kw=None, api="graph", opset=18, defaults=None, feed=None, xshape=None):
    cid = "%s/%s/%s>%s%s%s%s%s/%s/o%d" % (cid, prog, ",".join(ins), ",".join(outs), "/dyn" if dyn else "",
                                        "/ren=" + ",".join("%s=%s" % kv for kv in sorted(rename.items())) if rename else "",
                                        "/in=" + ",".join(inchw) if inchw else "", "/out=" + ",".join(onchw) if onchw else "", api, opset)
    if cid in ids:
        return
    ids.add(cid)
    out.append(Case(cid, dict(prog=prog, ins=ins, outs=outs, dyn=dyn, rename=rename or {}, inchw=inchw, onchw=onchw, kw=kw or {}, api=api, opset=opset, defaults=defaults or {}, xshape=xshape)))


def run_case(case):
    s = case.spec
    if "keras" in s or "func" in s:
        return run_api(case)
    g = tf.Graph()
    ins, outs = [T(n) for n in s["ins"]], [T(n) for n in s["outs"]]
    with g.as_default():
        PROG[s["prog"]](s["dyn"])
        feeds, want = [], []
        with v1.Session(graph=g) as sess:
            for k in (1, 3, 0) if s["prog"] == "loop" else (1, 2):
                fd = {T(n): (mixed((3,), np.float32, k) if s["prog"] == "default" and n == "x" else FEED[n](k)) for n in s["ins"]}
                if s["xshape"] and "x" in s["ins"]:
                    fd[T("x")] = mixed(s["xshape"], np.float32, k)
                try:
                    want.append(sess.run(outs, feed_dict=fd))
                except Exception as e:  # pylint: disable=broad-except
                    return Outcome("skip", "TensorFlow does not run it: %s" % str(e)[:200], evals=0)
                feeds.append(fd)
        back0 = ins + outs + [T(n) for n in ("d", "e") if s["prog"] == "default"]
        types = {n: g.get_tensor_by_name(n).dtype for n in back0}
        shapes = {n: g.get_tensor_by_name(n).shape for n in back0}
        gd = g.as_graph_def()
    ren = {T(a): b for a, b in s["rename"].items()}
    kw = dict(s["kw"])
    if s["inchw"]:
        kw["inputs_as_nchw"] = [T(n) for n in s["inchw"]]
    if s["onchw"]:
        kw["outputs_as_nchw"] = [T(n) for n in s["onchw"]]
    if ren:
        kw["tensors_to_rename"] = dict(ren)
    in_arg, out_arg = list(ins), list(outs)
    try:
        if s["api"] == "graph":
            with g.as_default():
                og = tfonnx.process_tf_graph(g, opset=s["opset"], input_names=in_arg, output_names=out_arg, **kw)
            model = optimizer.optimize_graph(og).make_model("m")
        elif s["api"] == "raw":
            with g.as_default():
                model = tfonnx.process_tf_graph(g, opset=s["opset"], input_names=in_arg, output_names=out_arg, **kw).make_model("m")
        elif s["api"] == "tfopt":
            with tf.Graph().as_default() as g2:
                tf.import_graph_def(gd, name="")
                og = tf_loader.tf_optimize(in_arg, out_arg, gd)
            with tf.Graph().as_default() as g2:
                tf.import_graph_def(og, name="")
                model = optimizer.optimize_graph(tfonnx.process_tf_graph(g2, opset=s["opset"], input_names=in_arg, output_names=out_arg, **kw)).make_model("m")
        else:
            model, _ = convert.from_graph_def(gd, input_names=in_arg, output_names=out_arg, opset=s["opset"], **kw)
    except Exception as e:  # pylint: disable=broad-except
        return Outcome("refused", "%s: %s" % (type(e).__name__, str(e)[:400]))
    # --- what must be seen from outside
    nhwc = lambda a: np.transpose(a, [0, 3, 1, 2])
    w_in = [ren.get(n, n) for n in ins if n not in [T(d) for d in s["defaults"].get("gone", ())]]
    w_out = [ren.get(n, n) for n in outs]
    have_in = [i.name for i in model.graph.input]
    # placeholders with a default that are not among the requested inputs stay optional inputs, after the requested ones
    optional = [ren.get(T(n), T(n)) for n in ("d", "e") if s["prog"] == "default" and T(n) not in ins and n not in s["kw"].get("use_default", ())]
    if have_in[:len(w_in)] != w_in or not set(have_in[len(w_in):]) <= set(optional):
        return Outcome("interface", "inputs %s instead of %s" % (have_in, w_in))
    inits = {i.name for i in model.graph.initializer}
    if not set(have_in[len(w_in):]) <= inits:
        return Outcome("interface", "optional inputs %s without default" % have_in[len(w_in):])
    required = [n for n in have_in if n not in inits]
    if required != [ren.get(n, n) for n in ins if not (s["prog"] == "default" and n[0] in "de" and n[0] not in s["kw"].get("ignore_default", ()))]:
        return Outcome("interface", "required inputs are %s" % required)
    if [o.name for o in model.graph.output] != w_out:
        return Outcome("interface", "outputs %s instead of %s" % ([o.name for o in model.graph.output], w_out))
    back = {ren.get(n, n): n for n in ins + outs + [T(n) for n in ("d", "e") if s["prog"] == "default"]}
    for vi in list(model.graph.input) + list(model.graph.output):
        n = back[vi.name]
        want_t = tf_utils.map_tf_dtype(types[n])
        if vi.type.tensor_type.elem_type != want_t:
            return Outcome("interface", "%s has type %d instead of %d" % (vi.name, vi.type.tensor_type.elem_type, want_t))
        sh = shapes[n]
        got = shape_of(vi)
        is_in = vi.name in have_in
        if sh.rank is not None and got is not None:
            dims = sh.as_list()
            if n in [T(i) for i in (s["inchw"] if is_in else s["onchw"])] and len(dims) == 4:
                dims = [dims[i] for i in (0, 3, 1, 2)]
            if len(dims) != len(got):
                return Outcome("interface", "%s has rank %d instead of %d" % (vi.name, len(got), len(dims)))
            if is_in and [d for d in got] != dims and not (s["kw"].get("shape_override") or s["prog"] == "default"):
                return Outcome("interface", "input %s is declared %s, the program has %s" % (vi.name, got, dims))
    feeds2 = []
    for fd in feeds:
        feeds2.append({ren.get(n, n): nhwc(v) if n in [T(i) for i in s["inchw"]] and np.ndim(v) == 4 else v for n, v in fd.items()})
    # a tensor that is both an input and an output has one layout: that of the input
    want2 = [[nhwc(v) if n in [T(o) for o in s["onchw"]] + [T(i) for i in s["inchw"] if T(i) in ins] and np.ndim(v) == 4 else v for n, v in zip(outs, w)] for w in want]
    return tfcase.compare_model(model, feeds2, want2, w_out, [(1e-4, 1e-5)] * len(outs), opset=s["opset"])


# ---------------------------------------------------------------- functions and keras models
def spec(shape, dt=F, name=None):
    return tf.TensorSpec(shape, dt, name=name)


def functions():
    """name -> (fn, input signature, feeds in flat order, expected input names or None, expected output names or None)"""
    a, b, c = mixed((2, 3), np.float32), mixed((2, 3), np.float32, 1), mixed((3,), np.float32, 2)
    A, B, C = spec([2, 3], name="a"), spec([2, 3], name="b"), spec([3], name="c")
    r = {}
    r["pos"] = (lambda x, y, z: x + y * z, [A, B, C], [a, b, c], ["a", "b", "c"], None)
    r["posrev"] = (lambda x, y, z: x - y * z, [B, A, C], [b, a, c], ["b", "a", "c"], None)
    r["unused"] = (lambda x, y, z: x * 2, [A, B, C], [a, b, c], ["a", "b", "c"], None)
    r["unused_first"] = (lambda x, y, z: z * 2, [A, B, C], [a, b, c], ["a", "b", "c"], None)
    r["noname"] = (lambda p, q: p - q, [spec([2, 3]), spec([2, 3])], [a, b], None, None)
    r["tuple_out"] = (lambda x, y: (x - y, y - x, x), [A, B], [a, b], ["a", "b"], None)
    r["dict_out"] = (lambda x, y: {"zz": x - y, "aa": x + y, "mm": x * y}, [A, B], [a, b], ["a", "b"], ["aa", "mm", "zz"])
    r["dict12"] = (lambda x, y: {"o%d" % i: x * i - y for i in range(12)}, [A, B], [a, b], ["a", "b"], sorted("o%d" % i for i in range(12)))
    r["list12"] = (lambda x, y: [x * i - y for i in range(12)], [A, B], [a, b], ["a", "b"], None)
    r["in12"] = (lambda *xs: tf.add_n([x * float(i + 1) for i, x in enumerate(xs)]), [spec([2, 3], name="i%d" % i) for i in range(12)],
                 [mixed((2, 3), np.float32, i) for i in range(12)], ["i%d" % i for i in range(12)], None)
    r["same_twice"] = (lambda x: (x * 2, tf.identity(x) * 2, x * 2), [A], [a], ["a"], None)
    r["same_tensor"] = (lambda x: (lambda t: (t, t))(x * 2), [A], [a], ["a"], None)
    r["pass"] = (lambda x, y: (x, y + 1), [A, B], [a, b], ["a", "b"], None)
    r["passrev"] = (lambda x, y: (y, x), [A, B], [a, b], ["a", "b"], None)
    r["const"] = (lambda x: (x + 1, tf.constant([1., 2.])), [A], [a], ["a"], None)
    r["dict_same"] = (lambda x: (lambda t: {"p": t, "q": t + 1})(x * 2), [A], [a], ["a"], ["p", "q"])
    r["outname_in"] = (lambda x, y: {"b": x - y, "c": x + y}, [A, spec([2, 3], name="d")], [a, b], ["a", "d"], ["b", "c"])
    r["types"] = (lambda x, i, t: (tf.cast(i, F) + x, i * 2, tf.logical_not(t)), [A, spec([3], tf.int32, "i"), spec([1], tf.bool, "t")],
                  [a, np.array([1, 2, 3], np.int32), np.array([True])], ["a", "i", "t"], None)
    r["scalar"] = (lambda x, y: x * y, [spec([], name="s"), A], [np.float32(2.5), a], ["s", "a"], None)
    r["wild"] = (lambda x, y: x - y, [spec([None, 3], name="a"), spec([None, None], name="b")], [a, b], ["a", "b"], None)
    return r


def keras_models():
    L = tf.keras.layers
    a, b = mixed((2, 3), np.float32), mixed((2, 4), np.float32, 1)

    def seq():
        return tf.keras.Sequential([L.Dense(4, input_shape=(3,), name="d1"), L.ReLU(name="r")]), [a], ["d1_input"], ["r"]

    def fn(order):
        def f():
            x, y = tf.keras.Input((3,), name="zx"), tf.keras.Input((4,), name="ay")
            o = {"p": L.Dense(2, name="p")(x), "q": L.Dense(3, name="q")(y), "m": L.Concatenate(name="m")([x, y])}
            return tf.keras.Model([x, y], [o[k] for k in order]), [a, b], ["zx", "ay"], list(order)
        return f

    def fn_rev():
        x, y = tf.keras.Input((3,), name="zx"), tf.keras.Input((4,), name="ay")
        return tf.keras.Model([y, x], [L.Concatenate(name="m")([x, y])]), [b, a], ["ay", "zx"], ["m"]

    def many():
        x = tf.keras.Input((3,), name="x")
        return tf.keras.Model([x], [L.Dense(2, name="o%d" % i)(x) for i in range(12)]), [a], ["x"], ["o%d" % i for i in range(12)]

    def manyin():
        xs = [tf.keras.Input((3,), name="i%d" % i) for i in range(12)]
        return tf.keras.Model(xs, [L.Subtract(name="s")([xs[10], xs[2]]), L.Add(name="t")(xs)]), [mixed((2, 3), np.float32, i) for i in range(12)], ["i%d" % i for i in range(12)], ["s", "t"]

    def sameout():
        x = tf.keras.Input((3,), name="x")
        d = L.Dense(2, name="d")
        return tf.keras.Model([x], [d(x), d(x * 2)]), [a], ["x"], None

    def nested():
        x = tf.keras.Input((3,), name="x")
        inner = tf.keras.Sequential([L.Dense(4, input_shape=(3,)), L.BatchNormalization()], name="inner")
        return tf.keras.Model([x], [L.Softmax(name="sm")(inner(x))]), [a], ["x"], ["sm"]

    def dropout():
        x = tf.keras.Input((3,), name="x")
        return tf.keras.Model([x], [L.Dropout(0.5, name="do")(L.GaussianNoise(1.0)(x))]), [a], ["x"], ["do"]

    class Sub(tf.keras.Model):
        def __init__(self, kind):
            super().__init__()
            self.d = L.Dense(2)
            self.kind = kind

        def call(self, x):
            y = self.d(x)
            return {"z": y, "a": y + 1} if self.kind == "dict" else (y, y * 2) if self.kind == "tuple" else y

    def sub(kind):
        def f():
            m = Sub(kind)
            m(a)
            return m, [a], None, {"dict": ["a", "z"]}.get(kind)
        return f
    return {"seq": seq, "fn_pqm": fn("pqm"), "fn_mqp": fn("mqp"), "fn_qp": fn("qp"), "fn_q": fn("q"), "fn_rev": fn_rev, "many": many, "manyin": manyin, "sameout": sameout,
            "nested": nested, "dropout": dropout, "sub_dict": sub("dict"), "sub_tuple": sub("tuple"), "sub_one": sub("one")}


def run_api(case):
    s = case.spec
    try:
        if "func" in s:
            fn, sig, data, names_in, names_out = functions()[s["func"]]
            func = tf.function(lambda *x: fn(*x), input_signature=sig, autograph=False)
            structured = func(*[tf.constant(d) for d in data])
        else:
            tf.random.set_seed(1)
            tf.keras.backend.clear_session()
            m, data, names_in, names_out = keras_models()[s["keras"]]()
            structured = m(data[0] if len(data) == 1 else data, training=False)
            sig = None
            if s.get("sig"):
                sig = [tf.TensorSpec([None] + list(d.shape[1:]), tf.float32, name=(names_in or ["arg"])[i]) for i, d in enumerate(data)]
                if len(sig) > 1 and s["api"] == "from_keras":
                    sig = [sig]
    except Exception as e:  # pylint: disable=broad-except
        return Outcome("skip", "TensorFlow does not run it: %s" % str(e)[:200], evals=0)
    if isinstance(structured, dict) and names_out:
        want = [np.asarray(structured[k]) for k in names_out]
    else:
        want = [np.asarray(t) for t in tf.nest.flatten(structured)]
    try:
        if "func" in s:
            model, _ = convert.from_function(func, input_signature=sig, opset=s["opset"])
        else:
            model, _ = convert.from_keras(m, input_signature=sig, opset=s["opset"])
    except Exception as e:  # pylint: disable=broad-except
        return Outcome("refused", "%s: %s" % (type(e).__name__, str(e)[:400]))
    have_in, have_out = [i.name for i in model.graph.input], [o.name for o in model.graph.output]
    if names_in and have_in != names_in:
        return Outcome("interface", "inputs %s instead of %s" % (have_in, names_in))
    if len(have_in) != len(data):
        return Outcome("interface", "%d inputs instead of %d" % (len(have_in), len(data)))
    if isinstance(structured, dict) and sorted(have_out) == sorted(names_out):
        want = [np.asarray(structured[k]) for k in have_out]     # by name: a dict has no order
    elif names_out and have_out != names_out:
        return Outcome("interface", "outputs %s instead of %s" % (have_out, names_out))
    if len(set(have_out)) != len(have_out):
        return Outcome("interface", "outputs %s are not distinct" % have_out)
    if len(have_out) != len(want):
        return Outcome("interface", "%d outputs instead of %d" % (len(have_out), len(want)))
    return tfcase.compare_model(model, [{n: np.asarray(d) for n, d in zip(have_in, data)}], [want], have_out, [(1e-4, 1e-5)] * len(want), opset=s["opset"])


def run_group(cases):
    return [run_case(c) for c in cases]


def cases(tier):
    thorough = tier == "thorough"
    out, ids = [], set()
    A = lambda *a, **k: add(out, ids, *a, **k)
    res = ["s", "t", "u", "v", "w", "d", "tr", "mp", "ix", "c"]
    # ordered selections of outputs
    for r in (1, 2) if not thorough else (1, 2, 3):
        for o in itertools.permutations(res, r):
            A("outs", outs=o)
    for o in itertools.permutations(["u", "v", "x", "y"], 2):
        A("outs", outs=o)
    for o in (("x",), ("x", "u"), ("u", "x"), ("sp:1",), ("sp:1", "sp:0"), ("sp:0", "s", "sp:1"), tuple(res), tuple(reversed(res))):
        for dyn in (0, 1):
            A("outs", outs=o, dyn=dyn)
    # ordered selections of inputs, also inner tensors
    for i in list(itertools.permutations(("x", "y"))) + [("x", "y", "unused"), ("unused", "y", "x"), ("s",), ("t",), ("u",), ("s", "y"), ("y", "s"), ("t", "y"), ("u", "y"), ("x", "s"), ("s", "x"), ("x", "t"),
                                                         ("t", "s"), ("u", "s", "x", "y"), ("ix", "y", "x"), ("sp:1", "x", "y")]:
        for o in [("u",), ("v",), ("d",), ("u", "v"), ("v", "u"), ("w",), ("tr", "d"), ("sp:0", "sp:1"), ("s", "ix")]:
            if "x" not in i and set(o) & {"w", "ix"} or not ("y" in i or "u" in i and "y" in i) and set(o) & {"d"} or not ({"s"} <= set(i) or {"x", "y"} <= set(i) or i == ("ix", "y", "x")) and (
                    set(o) & {"v", "sp:0", "s"} or set(o) & {"u"} and not {"u", "t"} & set(i) or set(o) & {"tr"} and not {"u", "t"} & set(i)):
                continue    # the inputs do not determine the outputs
            for dyn, api in itertools.product((0, 1), ("graph", "raw", "tfopt", "graphdef") if o in (("u",), ("u", "v"), ("d",)) else ("graph",)):
                if dyn and api != "graph" and not thorough:
                    continue
                A("ins", ins=i, outs=o, dyn=dyn, api=api)
    # renaming, also cyclic and onto names in use
    rens = [{"x": "in0"}, {"u": "out0"}, {"x": "a", "y": "b", "u": "c", "v": "d"}, {"x": "y:0", "y": "x:0"}, {"u": "v:0", "v": "u:0"}, {"x": "u", "u": "x"}, {"y": "x"}, {"x": "s"}, {"u": "t"}, {"u": "raw_output_"},
            {"u": "Identity:0"}, {"x": "x"}, {"u": "u"}, {"x": "x:1"}, {"u": "0"}, {"u": "a/b/c"}, {"x": "x y".replace(" ", "-")}, {"s": "mid"}, {"t": "u"}]
    for ren in rens:
        for i, o in [(("x", "y"), ("u", "v")), (("y", "x"), ("v", "u")), (("x", "y"), ("u",)), (("x", "y"), ("v", "u", "t", "s"))]:
            for api in ("graph", "raw", "graphdef") if thorough else ("graph",):
                A("ren", ins=i, outs=o, rename=ren, api=api)
    # layout of inputs and outputs
    for inchw in [(), ("x",), ("y",), ("x", "y"), ("y", "x")]:
        for o in [("u",), ("v",), ("s",), ("d",), ("mp",), ("tr",), ("u", "v"), ("u", "t"), ("t", "u"), ("v", "s"), ("s", "v", "t"), ("ix",), ("x", "u"), ("w",), ("ix", "u"), ("sp:0", "sp:1"), ("d", "mp")]:
            for onchw in [()] + [c for r in (1, 2) for c in itertools.combinations(o, r)]:
                if "w" in onchw:
                    continue
                if not inchw and not onchw:
                    continue
                for dyn in (0, 1) if thorough or len(o) == 1 else (0,):
                    A("nchw", outs=o, inchw=inchw, onchw=onchw, dyn=dyn)
                    if thorough or len(o) == 1 and len(inchw) < 2 and not dyn:
                        A("nchw", outs=o, inchw=inchw, onchw=onchw, dyn=dyn, api="raw")
                        A("nchw", outs=o, inchw=inchw, onchw=onchw, dyn=dyn, rename={"x": "a", "u": "b", "v": "x:0", "ix": "y", "s": "u:0"})
    for inchw, onchw, o, dyn in itertools.product([(), ("x",)], [(), ("acc",), ("cd",), ("acc", "cd")], [("acc",), ("cd",), ("acc", "cd", "cnt"), ("cnt", "cd")], (0, 1)):
        if set(onchw) <= set(o):
            A("loop", prog="loop", ins=("x", "n"), outs=o, inchw=inchw, onchw=onchw, dyn=dyn)
            A("loop", prog="loop", ins=("n", "x"), outs=o, inchw=inchw, onchw=onchw, dyn=dyn, rename={"x": "n:0", "n": "x:0"} if thorough else None)
    # placeholders with a default
    for i, o, dyn in itertools.product([("x",), ("x", "d"), ("d", "x"), ("x", "d", "e"), ("e", "x", "d"), ("x", "e")], [("s",), ("t",), ("q",), ("t", "s"), ("q", "t")], (0, 1)):
        A("dflt", prog="default", ins=i, outs=o, dyn=dyn)
        for ig in (("d",), ("e",), ("d", "e")):
            if set(ig) <= set(i):
                A("ign_" + "_".join(ig), prog="default", ins=i, outs=o, dyn=dyn, kw={"ignore_default": list(ig)})
            if not set(ig) & set(i):
                A("use_" + "_".join(ig), prog="default", ins=i, outs=o, dyn=dyn, kw={"use_default": list(ig)})
    # shape override
    for sh, o, api in itertools.product([[2, 3, 4, 5], [None, 3, 4, 5], [None, None, None, 5], [2, None, None, None]], [("u",), ("w",), ("u", "mp"), ("ix",), ("tr",)], ("graph", "graphdef")):
        A("override_" + "_".join(map(str, sh)), outs=o, dyn=1, kw={"shape_override": {"x:0": list(sh)}}, api=api)
    for n in functions():
        for o in (18,) if not thorough else (9, 13, 18):
            out.append(Case("func/%s/o%d" % (n, o), dict(func=n, opset=o, api="from_function")))
    for n in keras_models():
        for sg in (0, 1):
            out.append(Case("keras/%s_%d/o18" % (n, sg), dict(keras=n, opset=18, sig=sg, api="from_keras")))
    return out
