"""C25: the command line converts what it is given as it is told."""
import collections
import contextlib
import io
import itertools
import os
import pickle
import shutil
import sys
import tempfile
import time
import zipfile

import numpy as np
import onnx

from mc import tfcase
from mc.core import Case, Outcome, sig_of
from mc.tfcase import mixed

ID = "C25"
LEVEL = "exploration"
TECHNIQUE = ("bounded-exhaustive exploration of command lines (source of the model x options x their values) through the real entry point, each in a process "
             "of its own; the files it writes are run and compared with TensorFlow")
RULE = "every combination of the listed options per source; invalid command lines too; non-trivial and distinct = distinct command lines with a distinct model"
ASSUMPTIONS = ["the loaders are used through tf2onnx.convert.main with sys.argv set, in a forked process"]
GROUP = 1


def setup():
    tfcase.quiet()


# --------------------------------------------------------------------------------------------- sources; built once per run, shared by the workers
A = [mixed((2, 3), np.float32, k) for k in range(2)]
B = [mixed((3,), np.float32, k + 5) for k in range(2)]
IMG = [mixed((1, 4, 4, 2), np.float32, k) for k in range(2)]
K = [np.int32(3), np.int32(-2)]
D = [np.float32(2.0), np.float32(-1.5)]
W = mixed((3, 4), np.float32, 9)
BIG = mixed((3, 400), np.float32, 11)


def tf1_graph(variables):
    import tensorflow as tf
    v1 = tf.compat.v1
    g = tf.Graph()
    with g.as_default():
        const = (lambda v, name: v1.get_variable(name, initializer=v, use_resource=variables == "resource")) if variables else (lambda v, name: tf.constant(v, name=name))
        a = v1.placeholder(tf.float32, [None, 3], name="a")
        img = v1.placeholder(tf.float32, [1, 4, 4, 2], name="scope/img-1.x")
        k = v1.placeholder(tf.int32, [], name="k")
        d = v1.placeholder_with_default(tf.constant(0.5), [], name="d")
        u = v1.placeholder(tf.float32, None, name="u")
        with tf.name_scope("out"):
            y = tf.multiply(tf.matmul(a, const(W, "w")), d, name="y")
        c = tf.nn.conv2d(img, const(mixed((2, 2, 2, 3), np.float32, 1), "f"), 1, "SAME", name="c")
        z = tf.multiply(a, tf.cast(k, tf.float32), name="z_2")
        b = tf.matmul(a, const(BIG, "big"), name="b")
        s, i = tf.nn.top_k(z, 2, name="top")
        r = tf.add(tf.nn.relu(u), 1.0, name="r")
        x = tf.identity(tf.strings.as_string(k), name="x")
    names = [t.name for t in (y, c, z, b, s, i, r, x)]
    feeds = [{"a:0": A[j], "scope/img-1.x:0": IMG[j], "k:0": K[j], "d:0": D[j], "u:0": A[j]} for j in range(2)]
    with v1.Session(graph=g) as sess:
        if variables:
            with g.as_default():
                sess.run(v1.global_variables_initializer())
        values = [dict(zip(names, sess.run(names, f))) for f in feeds]
        nod = sess.run("out/y:0", {"a:0": A[0]})
        yield g, sess, feeds, values, nod


def make_graphdef(d):
    for g, sess, feeds, values, nod in tf1_graph(None):
        with open(os.path.join(d, "g.pb"), "wb") as f:
            f.write(g.as_graph_def().SerializeToString())
        return dict(feeds=feeds, values=values, nodefault=nod)


def make_checkpoint(d, kind="ref"):
    import tensorflow as tf
    v1 = tf.compat.v1
    for g, sess, feeds, values, nod in tf1_graph(kind):
        with g.as_default():
            v1.train.Saver().save(sess, os.path.join(d, "model"))
        return dict(feeds=feeds, values=values, nodefault=nod)


def make_saved1(d):
    import tensorflow as tf
    v1 = tf.compat.v1
    for g, sess, feeds, values, nod in tf1_graph("resource"):
        with g.as_default():
            t = g.get_tensor_by_name
            b = v1.saved_model.Builder(os.path.join(d, "sm"))
            info = v1.saved_model.build_tensor_info
            sig = v1.saved_model.build_signature_def({"zin": info(t("a:0")), "ain": info(t("k:0"))}, {"m": info(t("z_2:0")), "b": info(t("top:0"))}, "predict")
            sig2 = v1.saved_model.build_signature_def({"p": info(t("a:0"))}, {"q": info(t("b:0"))}, "predict")
            b.add_meta_graph_and_variables(sess, ["serve"], {"serving_default": sig, "second": sig2})
            b.save()
        feeds = [{"zin": A[j], "ain": K[j], "p": A[j]} for j in range(2)]
        return dict(feeds=feeds, values=[{"m": v["z_2:0"], "b": v["top:0"], "q": v["b:0"]} for v in values])


def make_saved2(d):
    import tensorflow as tf
    f32 = tf.float32

    class M(tf.Module):
        def __init__(self):
            super().__init__()
            self.w = tf.Variable(W)
            self.big = tf.Variable(BIG)
            self.table = tf.lookup.StaticHashTable(tf.lookup.KeyValueTensorInitializer(tf.constant(["u", "v"]), tf.constant([7, 8], tf.int64)), -1)

        @tf.function(input_signature=[tf.TensorSpec([None, 3], f32, name="zeta"), tf.TensorSpec([3], f32, name="alpha")])
        def main(self, zeta, alpha):
            return {"sum": zeta + alpha, "mat": tf.matmul(zeta, self.w), "big": tf.matmul(zeta, self.big)}

        @tf.function(input_signature=[tf.TensorSpec([None, 3], f32, name="q"), tf.TensorSpec([3], f32, name="unused")])
        def other(self, q, unused):
            return {"o%d" % k: q * float(k) + tf.reduce_sum(self.w) for k in range(12)}

        @tf.function(input_signature=[tf.TensorSpec([None], tf.string, name="s")])
        def look(self, s):
            return {"r": self.table.lookup(s)}

        @tf.function
        def __call__(self, x, y=None):
            return x * 2.0 if y is None else x - y

    m = M()
    m.__call__.get_concrete_function(tf.TensorSpec([None, 3], f32, name="x"))
    m.__call__.get_concrete_function(tf.TensorSpec([2, 3], f32, name="x"), tf.TensorSpec([2, 3], f32, name="y"))
    tf.saved_model.save(m, os.path.join(d, "sm"), signatures={"serving_default": m.main, "other": m.other, "look": m.look})
    S = [np.array([b"u", b"w", b"v"], object), np.array([b"v"], object)]
    feeds = [{"zeta": A[j], "alpha": B[j], "q": A[j], "unused": B[j], "s": S[j], "x": A[j], "y": A[1 - j]} for j in range(2)]
    values = []
    for f in feeds:
        v = {k: t.numpy() for fn, args in ((m.main, (f["zeta"], f["alpha"])), (m.other, (f["q"], f["unused"])), (m.look, (f["s"],))) for k, t in fn(*[tf.constant(t.tolist() if t.dtype == object else t) for t in args]).items()}
        v["call0"] = f["x"] * 2.0
        v["call1"] = f["x"] - f["y"]
        values.append(v)
    return dict(feeds=feeds, values=values)


def make_keras(d):
    import tf_keras as k
    a = k.Input((3,), name="in_a")
    b = k.Input((4, 4, 2), name="in_b")
    x = k.layers.Dense(4, name="one")(a)
    y = k.layers.Conv2D(3, 2, name="two")(b)
    m = k.Model([a, b], [x, y])
    m.set_weights([mixed(w.shape, np.float32, i) for i, w in enumerate(m.get_weights())])
    m.save(os.path.join(d, "m.h5"))
    m.save(os.path.join(d, "sm"))
    feeds = [{"in_a": A[j], "in_b": np.concatenate([IMG[j]] * 2)} for j in range(2)]
    return dict(feeds=feeds, values=[dict(zip(("one", "two"), [np.array(t) for t in m([f["in_a"], f["in_b"]])])) for f in feeds])


def make_tflite(d):
    import tensorflow as tf
    fn = tf.function(lambda a, b: {"s": tf.nn.softmax(a @ tf.constant(W)), "t": tf.nn.relu(a + b)},
                     input_signature=[tf.TensorSpec([2, 3], tf.float32, name="a"), tf.TensorSpec([3], tf.float32, name="b")])
    buf = tf.lite.TFLiteConverter.from_concrete_functions([fn.get_concrete_function()], fn).convert()
    with open(os.path.join(d, "m.tflite"), "wb") as f:
        f.write(buf)
    it = tf.lite.Interpreter(model_content=buf)
    ins = [i["name"] for i in it.get_input_details()]
    outs = [o["name"] for o in it.get_output_details()]
    feeds, values = [], []
    for j in range(2):
        r = fn(A[j], B[j])
        feeds.append({n: A[j] if n.startswith("a") or "_a" in n else B[j] for n in ins})
        values.append({n: (r["s"] if it.get_output_details()[k]["shape"][-1] == 4 else r["t"]).numpy() for k, n in enumerate(outs)})
    return dict(feeds=feeds, values=values, ins=ins, outs=outs)


MAKE = {"graphdef": make_graphdef, "checkpoint": make_checkpoint, "checkres": lambda d: make_checkpoint(d, "resource"), "saved1": make_saved1, "saved2": make_saved2,
        "keras": make_keras, "tflite": make_tflite}
SOURCES = {}


def source(name):
    if name in SOURCES:
        return SOURCES[name]
    root = os.environ["MC_C25"]
    d = os.path.join(root, name)
    try:
        os.mkdir(d)
        pid = os.fork()
        if pid == 0:
            try:
                null = os.open(os.devnull, os.O_WRONLY)
                os.dup2(null, 1)
                os.dup2(null, 2)
                info = MAKE[name](d)
                with open(os.path.join(d, "info.tmp"), "wb") as f:
                    pickle.dump(info, f)
                os.rename(os.path.join(d, "info.tmp"), os.path.join(d, "info"))
            except BaseException as e:  # pylint: disable=broad-except
                with open(os.path.join(d, "failed"), "w") as f:
                    f.write(repr(e))
            os._exit(0)
        os.waitpid(pid, 0)
    except FileExistsError:
        pass
    for _ in range(2400):
        if os.path.exists(os.path.join(d, "info")):
            with open(os.path.join(d, "info"), "rb") as f:
                SOURCES[name] = d, pickle.load(f)
            return SOURCES[name]
        if os.path.exists(os.path.join(d, "failed")):
            with open(os.path.join(d, "failed")) as f:
                raise RuntimeError("the source %s cannot be built: %s" % (name, f.read()))
        time.sleep(0.05)
    raise RuntimeError("the source %s is not ready" % name)


def done():
    if "MC_C25" in os.environ:
        shutil.rmtree(os.environ["MC_C25"], True)


# --------------------------------------------------------------------------------------------- running the command line
def command(argv, work):
    """-> (exit status, last words)"""
    log = os.path.join(work, "log")
    pid = os.fork()
    if pid == 0:
        rc = 9
        try:
            fd = os.open(log, os.O_WRONLY | os.O_CREAT)
            os.dup2(fd, 1)
            os.dup2(fd, 2)
            os.chdir(work)
            sys.argv = ["convert"] + argv
            from tf2onnx import convert
            try:
                convert.main()
                rc = 0
            except SystemExit as e:
                rc = e.code if isinstance(e.code, int) else 1 if e.code else 0
            except BaseException as e:  # pylint: disable=broad-except
                print("LAST WORDS %s: %s" % (type(e).__name__, e), flush=True)
                rc = 7
        finally:
            os._exit(rc)
    _, st = os.waitpid(pid, 0)
    with open(log, errors="replace") as f:
        text = f.read()
    i = text.rfind("LAST WORDS")
    return os.waitstatus_to_exitcode(st), text[i:] if i >= 0 else text[-300:]


def in_child(fn):
    """TensorFlow runs in forked processes only: a process that has run it cannot be forked"""
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            with os.fdopen(wfd, "wb") as f:
                f.write(pickle.dumps(fn()))
        finally:
            os._exit(0)
    os.close(wfd)
    with os.fdopen(rfd, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data)


NCHW = [0, 3, 1, 2]


def run_case(case):
    s = case.spec
    d, info = source(s["source"])
    work = tempfile.mkdtemp(prefix="mc_c25w_")
    try:
        argv = [a.replace("{d}", d).replace("{w}", work) for a in s["argv"]]
        rc, words = command(argv, work)
        if s.get("bad"):
            if rc == 0:
                return Outcome("accepted", "an invalid command line is accepted: %s" % argv)
            if os.path.exists(os.path.join(work, "m.onnx")):
                return Outcome("accepted", "the command fails and writes a model")
            return Outcome("ok", sig=sig_of(s["argv"]))
        if rc != 0:
            return Outcome("refused" if rc == 7 else "failed", "exit status %s: %s" % (rc, words[:500]))
        path = os.path.join(work, "m.onnx")
        if not os.path.exists(path):
            return Outcome("failed", "no model is written")
        if s.get("large"):
            with zipfile.ZipFile(path) as z:
                z.extractall(work)
            path = os.path.join(work, "__MODEL_PROTO.onnx")
        return judge(s, info, path, work)
    finally:
        shutil.rmtree(work, True)


def judge(s, info, path, work):
    import onnxruntime as ort
    m = onnx.load(path, load_external_data=False)
    ins, outs = [i.name for i in m.graph.input], [o.name for o in m.graph.output]
    want_in, want_out = s["ins"](info) if callable(s["ins"]) else s["ins"], s["outs"](info) if callable(s["outs"]) else s["outs"]
    want_names = [n for n, _ in want_in]
    if ins != want_names or outs != [n for n, _ in want_out]:
        return Outcome("interface", "inputs %s outputs %s instead of %s and %s" % (ins, outs, want_names, [n for n, _ in want_out]))
    have = {o.domain: o.version for o in m.opset_import}
    if have.get("") != s["opset"]:
        return Outcome("opset", "opset imports %s, requested %s" % (have, s["opset"]))
    for k, v in s.get("domains", {}).items():
        if have.get(k) != v:
            return Outcome("opset", "opset imports %s, requested %s" % (have, s["domains"]))
    for name, shape in s.get("shapes", {}).items():
        vi = [i for i in m.graph.input if i.name == name][0]
        got = tfcase.shape_of(vi)
        if got is None or [x if isinstance(x, int) else None for x in got] != shape:
            return Outcome("shape", "input %s has shape %s, requested %s" % (name, got, shape))
    if s.get("custom"):
        mine = [(n.domain, n.op_type) for n in m.graph.node if n.domain == s["custom"][0]]
        return Outcome("ok", sig=tfcase.graph_sig(m)) if mine == [s["custom"]] else Outcome("custom", "custom operators %s instead of %s" % (mine, s["custom"]))
    if s.get("large"):
        stored = [t for t in m.graph.initializer if t.data_location == onnx.TensorProto.EXTERNAL]
        if bool(stored) != s["stored"]:
            return Outcome("storage", "%d tensors are stored externally" % len(stored))
    so = ort.SessionOptions()
    so.intra_op_num_threads = 1
    so.log_severity_level = 4
    sess = ort.InferenceSession(path, so, providers=["CPUExecutionProvider"])
    evals = 0
    for f, v in zip(info["feeds"], info["values"]):
        fd = {}
        for n, src in want_in:
            a = np.asarray(f[src.lstrip("^")])
            fd[n] = np.transpose(a, NCHW) if src.startswith("^") else np.array([t.decode() for t in a], object) if a.dtype == object else a
        got = sess.run(None, fd)
        for (n, src), g in zip(want_out, got):
            w = v[src.lstrip("^")] if not s.get("nodefault") else None
            if w is None:
                w = v[src.lstrip("^")] / f["d:0"] * np.float32(0.5) if src == "out/y:0" else v[src.lstrip("^")]
            w = np.transpose(w, NCHW) if src.startswith("^") else w
            diff = tfcase.values_differ(w, g, (1e-4, 1e-4))
            if diff:
                return Outcome("mismatch", "%s: %s" % (n, diff))
            evals += 1
    if s.get("frozen"):
        r = in_child(lambda: judge_frozen(s, info, os.path.join(work, "f.pb"), want_in, want_out))
        if r:
            return r
    return Outcome("ok", sig=tfcase.graph_sig(m), evals=evals)


def judge_frozen(s, info, path, want_in, want_out):
    """the frozen graph computes the same"""
    import tensorflow as tf
    v1 = tf.compat.v1
    if not os.path.exists(path):
        return Outcome("frozen", "no frozen graph is written")
    gd = v1.GraphDef()
    with open(path, "rb") as f:
        gd.ParseFromString(f.read())
    g = tf.Graph()
    with g.as_default():
        tf.import_graph_def(gd, name="")
    if s["source"] in ("graphdef", "checkpoint", "checkres"):
        with v1.Session(graph=g) as sess:
            for f, v in zip(info["feeds"], info["values"]):
                got = sess.run([src.lstrip("^") for _, src in want_out], {src.lstrip("^"): f[src.lstrip("^")] for _, src in want_in})
                for (n, src), x in zip(want_out, got):
                    diff = tfcase.values_differ(v[src.lstrip("^")], x, (1e-4, 1e-4))
                    if diff:
                        return Outcome("frozen", "%s: %s" % (n, diff))
    return None


def run_group(cases):
    return [run_case(c) for c in cases]


# --------------------------------------------------------------------------------------------- command lines
def cases(tier):
    if "MC_C25" not in os.environ:
        os.environ["MC_C25"] = tempfile.mkdtemp(prefix="mc_c25_")
    big = tier == "thorough"
    out = []
    seen = set()

    def add(cid, source_, argv, ins, outs, **kw):
        if cid in seen:
            raise ValueError(cid)
        seen.add(cid)
        kw.setdefault("opset", 15)
        out.append(Case(cid, dict(source=source_, argv=argv + ["--output", "{w}/m.onnx"], ins=ins, outs=outs, **kw)))

    def common(opset, large, extra):
        argv = []
        kw = {}
        if opset:
            argv += ["--opset", str(opset)]
            kw["opset"] = opset
        if large:
            argv += ["--large_model"]
            kw["large"] = True
        for e in extra:
            argv += {"verbose": ["--verbose"], "vv": ["-v", "-v"], "debug": ["--debug"], "continue": ["--continue_on_error"], "frozen": ["--output_frozen_graph", "{w}/f.pb"],
                     "target": ["--target", "rs6"], "nhwc": ["--target", "nhwc"], "ms": ["--extra_opset", "com.microsoft:1"],
                     "two": ["--extra_opset", "com.microsoft:1,ai.onnx.contrib:1"]}[e]
            if e == "frozen":
                kw["frozen"] = True
            if e in ("ms", "two"):
                kw["domains"] = {"com.microsoft": 1} if e == "ms" else {"com.microsoft": 1, "ai.onnx.contrib": 1}
        return argv, kw
    EXTRA = ((), ("verbose",), ("vv",), ("debug",), ("continue",), ("frozen",), ("target",), ("nhwc",), ("ms",), ("two",))
    SIZE = {"a:0": "[2,3]", "scope/img-1.x:0": "[-1,4,4,2]", "k:0": "", "d:0": "", "u:0": "[2,-1]"}
    SHAPE = {"a:0": [2, 3], "scope/img-1.x:0": [None, 4, 4, 2], "u:0": [2, None]}
    sels = [(("a:0", "d:0"), ("out/y:0",)), (("d:0", "a:0"), ("out/y:0",)), (("scope/img-1.x:0",), ("c:0",)), (("a:0", "k:0"), ("z_2:0", "top:0", "top:1")),
            (("k:0", "a:0"), ("top:1", "z_2:0")), (("k:0", "scope/img-1.x:0", "a:0", "d:0"), ("c:0", "out/y:0", "b:0", "z_2:0")), (("a:0",), ("b:0",)), (("u:0",), ("r:0",)),
            (("a:0", "u:0"), ("r:0", "b:0"))]
    files = {"graphdef": ["--graphdef", "{d}/g.pb"], "checkpoint": ["--checkpoint", "{d}/model.meta"], "checkres": ["--checkpoint", "{d}/model.meta"]}
    for src, base in files.items():
        for k, (ins, outs) in enumerate(sels):
            for shaped, ren, nchw, opset, large, extra in itertools.product((0, 1), ("", "i", "o", "io"), ("", "i", "o", "io"), (None, 13, 18, 9), (0, 1), EXTRA):
                off = [bool(shaped), bool(ren), bool(nchw), bool(opset), bool(large), bool(extra)]
                if "u:0" in ins and not shaped:
                    continue
                if nchw and k not in (2, 5):
                    continue
                limit = (2 if src == "graphdef" else 1) + (1 if big else 0) - (1 if k in (1, 4, 8) and not big else 0)
                if sum(off) - int("u:0" in ins) > limit:
                    continue
                if not big and sum(off) - int("u:0" in ins) == 2 and hash_of(src, k, shaped, ren, nchw, opset, large, extra) % 14:
                    continue
                if ("target" in extra or "nhwc" in extra) and k in (2, 5) or src != "graphdef" and "debug" in extra:
                    continue
                if opset == 9 and any(o.startswith("top") for o in outs):
                    pass
                argv, kw = common(opset, large, extra)
                argv = base + ["--inputs", ",".join(i + (SIZE[i] if shaped else "") for i in ins), "--outputs", ",".join(outs)] + argv
                ni = {i: "IN_%d" % j for j, i in enumerate(ins)} if "i" in ren else {i: i for i in ins}
                no = {o: "res/%d" % j for j, o in enumerate(outs)} if "o" in ren else {o: o for o in outs}
                if "i" in ren:
                    argv += ["--rename-inputs", ",".join(ni[i] for i in ins)]
                if "o" in ren:
                    argv += ["--rename-outputs", ",".join(no[o] for o in outs)]
                if "i" in nchw:
                    argv += ["--inputs-as-nchw", "scope/img-1.x:0"]
                if "o" in nchw:
                    argv += ["--outputs-as-nchw", "c:0"]
                if shaped:
                    kw["shapes"] = {ni[i]: [SHAPE[i][x] for x in NCHW] if "i" in nchw and i.startswith("scope") else SHAPE[i] for i in ins if i in SHAPE}
                if large:
                    kw["stored"] = "b:0" in outs
                add("%s/%d/s%d/r%s/n%s/o%s/l%d/%s" % (src, k, shaped, ren, nchw, opset, large, "_".join(extra)), src, argv,
                    [(ni[i], ("^" if "i" in nchw and i.startswith("scope") else "") + i) for i in ins],
                    [(no[o], ("^" if "o" in nchw and o == "c:0" else "") + o) for o in outs], **kw)
    for src in files:
        base = files[src] + ["--outputs", "out/y:0"]
        add("%s/default/use" % src, src, base + ["--inputs", "a:0", "--use_default", "d"], [("a:0", "a:0")], [("out/y:0", "out/y:0")], nodefault=True)
        add("%s/default/use2" % src, src, base + ["--inputs", "a:0", "--use_default", "nope,d"], [("a:0", "a:0")], [("out/y:0", "out/y:0")], nodefault=True)
        add("%s/default/ignore" % src, src, base + ["--inputs", "a:0,d:0", "--ignore_default", "d"], [("a:0", "a:0"), ("d:0", "d:0")], [("out/y:0", "out/y:0")])
        add("%s/default/ignore2" % src, src, base + ["--inputs", "d:0,a:0", "--ignore_default", "d,nope"], [("d:0", "d:0"), ("a:0", "a:0")], [("out/y:0", "out/y:0")])
    add("graphdef/input", "graphdef", ["--input", "{d}/g.pb", "--inputs", "a:0", "--outputs", "b:0"], [("a:0", "a:0")], [("b:0", "b:0")])
    for op, dom, argv in (("AsString", "my.domain", ["--extra_opset", "my.domain:2"]), ("AsString", "ai.onnx.converters.tensorflow", [])):
        for more in ([], ["--continue_on_error"], ["--opset", "18"]):
            spec = op + (":" + dom if argv else "")
            add("graphdef/custom/%s/%d/%s" % (dom, len(argv), "_".join(more)), "graphdef", files["graphdef"] + ["--inputs", "k:0", "--outputs", "x:0", "--custom-ops", spec] + argv + more,
                [("k:0", "k:0")], [("x:0", "x:0")], custom=(dom, op), domains={dom: 2 if argv else 1}, opset=18 if "18" in more else 15)
    add("graphdef/custom/both", "graphdef", files["graphdef"] + ["--inputs", "k:0", "--outputs", "x:0", "--custom-ops", "AsString,Foo:my.domain", "--extra_opset", "my.domain:2"],
        [("k:0", "k:0")], [("x:0", "x:0")], custom=("ai.onnx.converters.tensorflow", "AsString"), domains={"ai.onnx.converters.tensorflow": 1, "my.domain": 2})
    # saved models
    sm = ["--saved-model", "{d}/sm"]
    main_in, main_out = [("alpha", "alpha"), ("zeta", "zeta")], [("big", "big"), ("mat", "mat"), ("sum", "sum")]
    other_out = sorted("o%d" % k for k in range(12))
    sigs = {"": (main_in, main_out), "serving_default": (main_in, main_out), "other": ([("q", "q"), ("unused", "unused")], [(o, o) for o in other_out]), "look": ([("s", "s")], [("r", "r")])}
    for (sig, (ins, outs)), tag, ren, opset, large, extra in itertools.product(sigs.items(), (None, "serve"), ("", "i", "o", "io"), (None, 18, 11), (0, 1), EXTRA):
        off = [bool(tag), bool(ren), bool(opset), bool(large), bool(extra)]
        if sum(off) > (3 if big else 1) or "debug" in extra or "target" in extra:
            continue
        argv, kw = common(opset, large, extra)
        if sig:
            argv += ["--signature_def", sig]
        if tag:
            argv += ["--tag", tag]
        ni = {i: "IN_%d" % j if "i" in ren else i for j, (i, _) in enumerate(ins)}
        no = {o: "res/%d" % j if "o" in ren else o for j, (o, _) in enumerate(outs)}
        if "i" in ren:
            argv += ["--rename-inputs", ",".join(ni[i] for i, _ in ins)]
        if "o" in ren:
            argv += ["--rename-outputs", ",".join(no[o] for o, _ in outs)]
        if large:
            kw["stored"] = sig in ("", "serving_default")
        add("saved2/%s/t%s/r%s/o%s/l%d/%s" % (sig, tag, ren, opset, large, "_".join(extra)), "saved2", sm + argv, [(ni[i], v) for i, v in ins], [(no[o], v) for o, v in outs], **kw)
    for opset, large in itertools.product((None, 18), (0, 1)):
        argv, kw = common(opset, large, ())
        if large:
            kw["stored"] = True
        add("saved2/graphnames/o%s/l%d" % (opset, large), "saved2", sm + ["--use-graph-names"] + argv, [("alpha:0", "alpha"), ("zeta:0", "zeta")],
            [("Identity:0", "big"), ("Identity_1:0", "mat"), ("Identity_2:0", "sum")], **kw)
        kw = dict(kw)
        if large:
            kw["stored"] = False
        add("saved2/part/o%s/l%d" % (opset, large), "saved2", sm + ["--inputs", "zeta:0,alpha:0", "--outputs", "Identity_2:0"] + argv, [("zeta:0", "zeta"), ("alpha:0", "alpha")], [("Identity_2:0", "sum")], **kw)
    for k, (ins, outs) in enumerate((([("x", "x")], [("Identity:0", "call0")]), ([("x", "x"), ("y", "y")], [("Identity:0", "call1")]))):
        for opset in (None, 18):
            argv, kw = common(opset, 0, ())
            add("saved2/call%d/o%s" % (k, opset), "saved2", sm + ["--concrete_function", str(k)] + argv, ins, outs, **kw)
    for sig, ins, outs in (("", [("ain", "ain"), ("zin", "zin")], [("b", "b"), ("m", "m")]), ("serving_default", [("ain", "ain"), ("zin", "zin")], [("b", "b"), ("m", "m")]), ("second", [("p", "p")], [("q", "q")])):
        for opset, large, tag in itertools.product((None, 18), (0, 1), (None, "serve")):
            argv, kw = common(opset, large, ())
            if large:
                kw["stored"] = sig == "second"
            add("saved1/%s/o%s/l%d/t%s" % (sig, opset, large, tag), "saved1", sm + (["--signature_def", sig] if sig else []) + (["--tag", tag] if tag else []) + argv, ins, outs, **kw)
    # keras
    for path in ("m.h5", "sm"):
        for opset, large, extra in itertools.product((None, 18), (0, 1), ((), ("verbose",), ("continue",))):
            argv, kw = common(opset, large, extra)
            if large:
                kw["stored"] = False
            add("keras/%s/o%s/l%d/%s" % (path, opset, large, "_".join(extra)), "keras", ["--keras", "{d}/" + path] + argv, [("in_a:0", "in_a"), ("in_b:0", "in_b")], [("Identity:0", "one"), ("Identity_1:0", "two")], **kw)
    # tflite
    for ren, opset, deq, extra in itertools.product(("", "i", "o", "io"), (None, 18, 11), (0, 1), ((), ("verbose",), ("continue",))):
        argv, kw = common(opset, 0, extra)
        if not big and sum(map(bool, (ren, opset, deq, extra))) > 2:
            continue
        names = lambda key, pre, on: lambda info: [((pre + str(j)) if on else n, n) for j, n in enumerate(info[key])]
        argv = ["--tflite", "{d}/m.tflite"] + argv + (["--dequantize"] if deq else [])
        if "i" in ren or "o" in ren:
            # the names of the tensors have to be given for renaming them
            continue
        add("tflite/o%s/d%d/%s" % (opset, deq, "_".join(extra)), "tflite", argv, names("ins", "IN", "i" in ren), names("outs", "OUT", "o" in ren), **kw)
    # invalid command lines
    g, io_ = files["graphdef"], ["--inputs", "a:0", "--outputs", "b:0"]
    bad = {"nomodel": io_, "noinputs": g + ["--outputs", "b:0"], "nooutputs": g + ["--inputs", "a:0"], "nofile": ["--graphdef", "{d}/nope.pb"] + io_, "badinput": g + ["--inputs", "nope:0", "--outputs", "b:0"],
           "badoutput": g + ["--inputs", "a:0", "--outputs", "nope:0"], "opset99": g + io_ + ["--opset", "99"], "opsetx": g + io_ + ["--opset", "x"], "extra1": g + io_ + ["--extra_opset", "nocolon"],
           "extra3": g + io_ + ["--extra_opset", "a:1:2"], "extrax": g + io_ + ["--extra_opset", "a:x"], "dequantize": g + io_ + ["--dequantize"], "target": g + io_ + ["--target", "foo"],
           "unknown": g + io_ + ["--nope"], "port": g + ["--inputs", "a:0", "--outputs", "b:1"], "ckpt": ["--checkpoint", "{d}/model.meta"] + io_,
           "custom": g + ["--inputs", "a:0", "--outputs", "b:0", "--custom-ops", "A:b:c"], "lib": g + io_ + ["--load_op_libraries", "{d}/none.so"]}
    for n, argv in bad.items():
        add("bad/%s" % n, "graphdef", argv, [], [], bad=True)
    for n, argv in {"sig": ["--signature_def", "nope"], "tag": ["--tag", "nope"], "call": ["--concrete_function", "9"], "input": ["--inputs", "nope:0", "--outputs", "nope:0"]}.items():
        add("bad/saved/%s" % n, "saved2", sm + argv, [], [], bad=True)
    add("bad/tflite", "graphdef", ["--tflite", "{d}/g.pb"], [], [], bad=True)
    return out


def hash_of(*a):
    return int(sig_of(*a)[:8], 16)
