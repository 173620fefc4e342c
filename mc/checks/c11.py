"""C11: strings, lookup tables and operators that are converted to the extra (contrib, ml, com.microsoft) domains."""
import itertools

import numpy as np
import tensorflow as tf
from onnx import helper

from mc import fncase
from mc.fncase import Suite
from mc.tfcase import mixed, ort_session

fncase.define(globals(), "C11", rule="one program per point of operator x attribute x shape x opset; every program is converted with the extra opset "
              "enabled, run by onnxruntime (with the extension library for the contrib domain) on a string alphabet with empty, multi-byte and "
              "separator-only strings and compared with TensorFlow; distinct = distinct emitted op sequences")

raw = tf.raw_ops
S = np.array
CONTRIB = [helper.make_opsetid("ai.onnx.contrib", 1)]
MS = [helper.make_opsetid("com.microsoft", 1)]
WORDS = ["a", "", "bc", "A", " ", "ab c", "\u00e9t\u00e9", "a,b,,c", "\u6f22", "Bc", ",", "a b", "-1", "ABC", "12", "abab", "x"]
ST = tf.string


def words(shape, salt=0):
    n = int(np.prod(shape)) if len(shape) else 1
    return np.array([WORDS[(i * 5 + salt * 3 + 1) % len(WORDS)] for i in range(n)], object).reshape(shape)


def split_words(n, salt, plain):
    w = ["a,b", "c", "a b c", ",a", "bc,ab", "a,,b", " x ", "abc"] if plain else WORDS
    return np.array([w[(i * 3 + salt) % len(w)] for i in range(n)], object)


def hash_reference(n):
    """the hash itself is the extension library's: its node with the right number of buckets is the reference"""
    def f(x):
        model = helper.make_model(helper.make_graph(
            [helper.make_node("StringToHashBucketFast", ["x", "n"], ["y"], domain="ai.onnx.contrib")], "g",
            [helper.make_tensor_value_info("x", 8, None)], [helper.make_tensor_value_info("y", 7, None)],
            [helper.make_tensor("n", 7, [1], [n])]), opset_imports=[helper.make_opsetid("", 13)] + CONTRIB, ir_version=8)
        v = np.array([t.decode() for t in np.asarray(x).ravel().tolist()] if x.shape.rank else [x.numpy().decode()], object).reshape(x.shape)
        return ort_session(model, True).run(None, {"x": v})[0]
    return f


def numbers(shape, salt=0):
    n = int(np.prod(shape)) if len(shape) else 1
    w = ["1", "-2", "30", "0", "7", "-15", "100"]
    return np.array([w[(i + salt) % len(w)] for i in range(n)], object).reshape(shape)


class Add:
    def __init__(self):
        self.s = Suite()

    def __call__(self, cid, fn, sig, feeds, opset=18, opsets=None, ms=False, plain=False, **kw):
        cid = cid.replace(", ", ",").replace(" ", "~")
        for o in opsets or (opset,):
            self.s.add(cid, fn, sig, feeds, o, kw={} if plain else {"extra_opset": MS if ms else CONTRIB}, extra_ops=not ms, **kw)


def strings(add, tier):
    thorough = tier == "thorough"
    pairs = [((), ()), ((3,), (3,)), ((3,), ()), ((2, 3), (2, 3)), ((2, 3), (3,)), ((2, 1), (1, 3)), ((1,), (4,))]
    # the kernel of the extension library broadcasts only a prefix and crashes on two scalars
    nokernel = [((), ()), ((2, 3), (3,)), ((2, 1), (1, 3))]
    for (a, b), op, dyn in itertools.product(pairs, ("Equal", "NotEqual"), (0, 1)):
        f = (lambda x, y: tf.equal(x, y)) if op == "Equal" else (lambda x, y: tf.not_equal(x, y))
        sig = [((None,) * len(a) if dyn else a, ST), ((None,) * len(b) if dyn else b, ST)]
        if (a, b) not in nokernel:
            add("%s/%s_%s_%s" % (op, a, b, "d" if dyn else "s"), f, sig, [[words(a, i), words(b, i + j)] for i in range(3) for j in (0, 1)],
                opsets=(13, 18) if thorough or not dyn else (18,))
        add("%sf/%s_%s_%s" % (op, a, b, "d" if dyn else "s"), f, [(sig[0][0], tf.float32), (sig[1][0], tf.float32)],
            [[mixed(a, np.float32, i), mixed(b, np.float32, i)] for i in range(3)])
        # the two directions of the comparison used together
        if not dyn and (a, b) not in nokernel:
            add("%s2/%s_%s" % (op, a, b), lambda x, y, f=f: (f(x, y), tf.logical_not(f(x, y)), tf.where(f(x, y), tf.constant(1), tf.constant(2))),
                sig, [[words(a, i), words(b, i)] for i in range(2)])
    for op in ("Equal", "NotEqual"):
        f = tf.equal if op == "Equal" else tf.not_equal
        add("%s/const" % op, lambda x, f=f: f(x, tf.constant("a")), [((4,), ST)], [[words((4,), i)] for i in range(4)])
    # (a join of scalars alone has shape [1] in the extension library)
    shapes = [[(3,)], [(3,), (3,)], [(3,), ()], [(), (3,)], [(2, 2), (2, 2)], [(2, 2), (), (2, 2)], [(2,), (), ()]]
    for sh, sep, dyn in itertools.product(shapes, ("", ",", "--", "\u00e9"), (0, 1)):
        if dyn and sep not in ("", "--"):
            continue
        sig = [((None,) * len(a) if dyn else a, ST) for a in sh]
        add("StringJoin/%s_%r_%s" % ("_".join(map(str, sh)), sep, "d" if dyn else "s"),
            lambda *a, sep=sep: tf.strings.join(list(a), sep), sig, [[words(a, i + j) for j, a in enumerate(sh)] for i in range(3)],
            opsets=(11, 13, 18) if not dyn else (18,))
    for shape, sep, keep in itertools.product([(3,), (2, 3), (2, 2, 2), (1,), (2, 1)], ("", ",", "ab"), (False, True)):
        for ax in list(range(-len(shape), len(shape))) + [[0], [-1]] + ([[0, 1]] if len(shape) > 1 else []):
            if len(shape) == 1 and not keep:
                continue    # the extension library has no scalar result
            if len(shape) == 1:
                post = lambda x: tf.reshape(x, [-1])    # ... and a result of shape [1] instead
            else:
                post = lambda x: x
            for dyn in (0, 1):
                add("ReduceJoin/%s_%r_%s_%s_%s" % (shape, sep, keep, str(ax).replace(" ", ""), "d" if dyn else "s"),
                    lambda x, sep=sep, keep=keep, ax=ax, post=post: post(raw.ReduceJoin(inputs=x, reduction_indices=ax, keep_dims=keep, separator=sep)),
                    [((None,) * len(shape) if dyn else shape, ST)], [[words(shape, i)] for i in range(2)],
                    opsets=(12, 13, 18) if sep == "," and not dyn else (18,))
    for sep, skip in itertools.product((" ", ",", "", "ab", "bc"), (True, False)):
        for n in (1, 3, 5):
            add("StringSplit/%r_%s_%d" % (sep, skip, n), lambda x, sep=sep, skip=skip: list(raw.StringSplit(input=x, delimiter=sep, skip_empty=skip)),
                [((n,), ST)], [[split_words(n, i, sep == "")] for i in range(4)], opsets=(12, 13, 18) if n == 3 else (18,))
        if skip:
            # for an empty string the extension library gives no token, TensorFlow an empty one
            for n in (1, 3, 5):
                add("StringSplitV2/%r_%d" % (sep, n), lambda x, sep=sep: list(raw.StringSplitV2(input=x, sep=sep)),
                    [((n,), ST)], [[split_words(n, i, True)] for i in range(4)])
    for low, enc in itertools.product((True, False), ("", "utf-8")):
        f = tf.strings.lower if low else tf.strings.upper
        for shape, dyn in itertools.product([(), (1,), (4,), (2, 3), (2, 2, 2), (1, 3), (2, 1, 2)], (0, 1, 2)):
            if dyn == 2 and len(shape) < 2:
                continue
            sig = (None,) * len(shape) if dyn == 1 else (None,) + tuple(shape[1:]) if dyn == 2 else shape
            # without encoding TensorFlow changes only ASCII letters
            data = [words(shape, i) for i in range(3)]
            if not enc:
                data = [np.array([w if w.isascii() else "q" for w in d.ravel()], object).reshape(shape) for d in data]
            add("Case/%s_%r_%s_%d" % ("lower" if low else "upper", enc, shape, dyn), lambda x, f=f, enc=enc: tf.identity(f(x, encoding=enc)),
                [(sig, ST)], [[d] for d in data], opsets=(10, 13, 18) if not enc else (18,))
        add("Case/twice_%s_%r" % (low, enc), lambda x, f=f, enc=enc: (f(x, encoding=enc), tf.identity(x), tf.strings.join([f(x, encoding=enc), x])),
            [((2, 2), ST)], [[np.array([["aB", "x"], ["", "Yz"]], object)]])
    pats = [("a", "X"), ("[abc]+", "-"), ("(a)(b)", r"\2\1"), (" ", ""), ("^a", "Z"), (r"\s", "_"), (",", ";"), ("b|c", ""), ("$", "!"), (r"\d+", "N"), (".", "-")]
    for (p, r), glob in itertools.product(pats, (True, False)):
        for shape in ((4,), (), (2, 2)):
            add("Regex/%s_%s_%s_%s" % (p.replace(" ", "_"), r, glob, shape), lambda x, p=p, r=r, glob=glob: raw.StaticRegexReplace(input=x, pattern=p, rewrite=r, replace_global=glob),
                [(shape, ST)], [[words(shape, i)] for i in range(4)])
    for n in (1, 2, 7, 1000, 2 ** 31 + 11):
        for shape in ((), (5,), (2, 3)):
            add("Hash/%d_%s" % (n, shape), lambda x, n=n: raw.StringToHashBucketFast(input=x, num_buckets=n), [(shape, ST)], [[words(shape, i)] for i in range(3)],
                want_fn=hash_reference(n))
    for dt in (tf.int32, tf.int64, tf.float32, tf.float64, tf.bool, tf.int8, tf.int16):
        npdt = dt.as_numpy_dtype
        for shape in ((), (4,), (2, 2)):
            vals = [mixed(shape, npdt, i) for i in range(2)] if dt not in (tf.float32, tf.float64) else [mixed(shape, np.int32, i).astype(npdt) for i in range(2)]
            for attr in ({}, {"precision": 2}, {"scientific": True}, {"shortest": True}, {"width": 6}, {"fill": "0", "width": 5}):
                if "precision" in attr and dt not in (tf.float32, tf.float64) or "scientific" in attr and dt not in (tf.float32, tf.float64):
                    continue
                if len(shape) != 1 and attr:
                    continue
                add("AsString/%s_%s_%s" % (dt.name, shape, "_".join("%s%s" % kv for kv in attr.items())), lambda x, attr=attr: tf.strings.as_string(x, **attr), [(shape, dt)],
                    [[v] for v in vals], opsets=(9, 13, 18) if not attr else (18,))
    for dt in (tf.float32, tf.float64, tf.int32, tf.int64):
        for shape in ((), (4,), (2, 2), (0,)):
            add("ToNumber/%s_%s" % (dt.name, shape), lambda x, dt=dt: tf.strings.to_number(x, dt), [(shape, ST)], [[numbers(shape, i)] for i in range(2)], opsets=(9, 13, 18))
    # operators that only move data, on strings
    x23 = [[words((2, 3), i)] for i in range(2)]
    for name, f in {"reshape": lambda x: tf.reshape(x, [3, 2]), "transpose": lambda x: tf.transpose(x), "gather": lambda x: tf.gather(x, [1, 0, 1], axis=1),
                    "slice": lambda x: x[:, 1:], "concat": lambda x: tf.concat([x, x[:, :1]], 1), "expand": lambda x: tf.expand_dims(x, 1),
                    "stack": lambda x: tf.stack([x, x], 1), "unstack": lambda x: tf.unstack(x, axis=1), "shape": lambda x: tf.shape(x),
                    "tile": lambda x: tf.tile(x, [1, 2]), "where": lambda x: tf.where(tf.constant([[True, False, True]]), x, tf.constant("none")),
                    "squeeze": lambda x: tf.squeeze(x[:1], 0), "split": lambda x: tf.split(x, [1, 2], 1), "gathernd": lambda x: tf.gather_nd(x, [[0, 1], [1, 2]]),
                    "const": lambda x: tf.concat([x, tf.constant([["c", "\u00e9", ""]])], 0), "reverse": lambda x: tf.reverse(x, [1]),
                    "size": lambda x: tf.size(x), "pack": lambda x: tf.stack([x[0, 0], x[1, 1]]), "bcast": lambda x: tf.broadcast_to(x[:, :1], [2, 3]),
                    "fill": lambda x: tf.fill([2], x[0, 1])}.items():
        for dyn in (0, 1):
            add("Move/%s_%d" % (name, dyn), f, [((None, None) if dyn else (2, 3), ST)], x23, opsets=(12, 18))


def tables(add0, tier):
    """tables reach the converter through an object that owns them or through a saved model"""
    def add(cid, *a, **k):
        add0(cid, *a, conv=fncase.conv_trackable, **k)
        if tier == "thorough" or "4,)_s" in cid or cid.startswith(("Tables", "Table/types")):
            k.pop("opsets", None)
            add0("sm" + cid, *a, conv=fncase.conv_saved_model, **k)

    keys = ["a", "bc", "\u00e9t\u00e9", "", "12"]
    vals = [5, -7, 2 ** 40, 0, 3]

    def table(ks, vs, kd, vd, default):
        return tf.lookup.StaticHashTable(tf.lookup.KeyValueTensorInitializer(tf.constant(ks, kd), tf.constant(vs, vd)), default)

    for shape, dyn, n, d in itertools.product([(), (4,), (2, 3)], (0, 1), (1, 5), (-1, 0, 5)):
        def mk(n=n, d=d):
            t = table(keys[:n], vals[:n], tf.string, tf.int64, d)
            return (lambda x: (t.lookup(x), t.size())), t
        add("Table/s2i_%s_%s_%d_%d" % (shape, "d" if dyn else "s", n, d), None, [((None,) * len(shape) if dyn else shape, ST)],
            [[words(shape, i)] for i in range(4)], opsets=(9, 13, 18) if n == 5 and not dyn else (18,), make=mk)

        def mk2(n=n, d=d):
            t = table([10, -3, 7, 0, 99][:n], ["x", "", "\u00e9", "long word", "12"][:n], tf.int64, tf.string, {-1: "none", 0: "", 5: "x"}[d])
            return (lambda x: (t.lookup(x), t.size())), t
        nums = [np.array([(10, -3, 7, 0, 99, 5)[(i * 5 + k) % 6] for i in range(int(np.prod(shape)) if shape else 1)], np.int64).reshape(shape) for k in range(3)]
        add("Table/i2s_%s_%s_%d_%d" % (shape, "d" if dyn else "s", n, d), None, [((None,) * len(shape) if dyn else shape, tf.int64)],
            [[v] for v in nums], opsets=(9, 13, 18) if n == 5 and not dyn else (18,), make=mk2)
    for ks in ("a", ["a"], ["zz", "bc"], [["a", "zz"], ["", "12"]]):
        def mk3(ks=ks):
            t = table(keys, vals, tf.string, tf.int64, -1)
            return (lambda x: (t.lookup(tf.constant(ks)), t.lookup(x))), t
        add("Table/constkey_%s" % str(ks).replace(" ", ""), None, [((2,), ST)], [[words((2,), i)] for i in range(2)], make=mk3)

        def mk4(ks=ks):
            t = table([10, -3, 7], ["x", "", "\u00e9"], tf.int64, tf.string, "none")
            k = tf.nest.map_structure(lambda s: {"a": 10, "zz": 4, "bc": -3, "": 7, "12": 12}[s], ks)
            return (lambda x: (t.lookup(tf.constant(k, tf.int64)), t.lookup(x))), t
        add("Table/constkeyi_%s" % str(ks).replace(" ", ""), None, [((2,), tf.int64)], [[np.array([10, 8])], [np.array([-3, 7])]], make=mk4)

    def two():
        t = table(keys, vals, tf.string, tf.int64, -1)
        u = table(["a", "b"], [1, 2], tf.string, tf.int64, 77)
        return (lambda x: (t.lookup(x), u.lookup(x), t.size() + u.size(), t.lookup(x) + u.lookup(tf.strings.join([x, x])))), [t, u]

    def back():
        t = table(keys, [0, 1, 2, 3, 4], tf.string, tf.int64, -1)
        u = table([0, 1, 2, 3, 4], keys, tf.int64, tf.string, "?")
        return (lambda x: (u.lookup(t.lookup(x)), u.lookup((t.lookup(x) + 1) % 5))), [t, u]

    def vocab():
        t = table(keys, [0, 1, 2, 3, 4], tf.string, tf.int64, -1)
        w = tf.constant(mixed((6, 2), np.float32))
        return (lambda x: tf.gather(w, t.lookup(x) + 1)), t

    def sizeonly():
        t = table(keys, vals, tf.string, tf.int64, -1)
        return (lambda x: (t.size(), tf.identity(x))), t

    def cond():
        t = table(keys, vals, tf.string, tf.int64, -1)
        return (lambda x: tf.cond(tf.equal(tf.shape(x)[0], 2), lambda: t.lookup(x), lambda: t.lookup(x[:1]) * 2)), t

    def loop():
        t = table(keys, vals, tf.string, tf.int64, -1)
        return (lambda x: tf.while_loop(lambda i, s: i < 3, lambda i, s: (i + 1, s + tf.reduce_sum(t.lookup(x))), [0, tf.constant(0, tf.int64)])[1]), t
    for name, mk in dict(two=two, back=back, vocab=vocab, sizeonly=sizeonly, cond=cond, loop=loop).items():
        for dyn in (0, 1):
            if name in ("sizeonly", "cond", "loop"):    # such tables are not found in an object; the converter goes on and leaves inputs
                add0("smTables/%s_%d" % (name, dyn), None, [((None,) if dyn else (2,), ST)], [[words((2,), i)] for i in range(3)], make=mk, conv=fncase.conv_saved_model)
                continue
            add("Tables/%s_%d" % (name, dyn), None, [((None,) if dyn else (2,), ST)], [[words((2,), i)] for i in range(3)] + ([[words((3,), 1)]] if dyn else []), make=mk)
    for kd, vd in itertools.product((tf.int32, tf.int64, tf.string), (tf.int32, tf.int64, tf.float32, tf.string)):
        def mk5(kd=kd, vd=vd):
            t = table(["a", "b"] if kd == tf.string else [1, 2], ["p", "q"] if vd == tf.string else [3, 4], kd, vd, "d" if vd == tf.string else 0)
            return (lambda x: t.lookup(x)), t
        add("Table/types_%s_%s" % (kd.name, vd.name), None, [((2,), kd)], [[np.array(["a", "z"], object) if kd == tf.string else np.array([1, 9], kd.as_numpy_dtype)]], make=mk5)


def microsoft(add, tier):
    for dt in (tf.float32, tf.int32, tf.int64, tf.float64):
        for a, b, d in ((0, 5, 1), (2, 11, 3), (5, -4, -2), (0, 0, 1), (3, 4, 7), (-3, 3, 2)):
            feeds = [[np.array(v, dt.as_numpy_dtype) for v in (a, b, d)], [np.array(v, dt.as_numpy_dtype) for v in (a, b + (d > 0) - (d < 0), d)]]
            add("Range/%s_%d_%d_%d" % (dt.name, a, b, d), lambda x, y, z: tf.range(x, y, z), [((), dt)] * 3, feeds, ms=True, opsets=(9, 13))
            add("Rangec/%s_%d_%d_%d" % (dt.name, a, b, d), lambda x, a=a, b=b, d=d, dt=dt: tf.cast(x, dt) + tf.range(tf.constant(a, dt), tf.constant(b, dt), tf.constant(d, dt)), [((1,), dt)],
                [[np.array([2], dt.as_numpy_dtype)]], ms=True, opsets=(9, 13))
    for shape in ((2, 2), (3, 3), (2, 2, 2), (1, 1)):
        m = mixed(shape, np.float32) + 5 * np.eye(shape[-1], dtype=np.float32)
        for adj in (False, True):
            add("Inverse/%s_%s" % (shape, adj), lambda x, adj=adj: tf.linalg.inv(x, adjoint=adj), [(shape, tf.float32)], [[m], [m * 2 + 1]], ms=True, opsets=(9, 13), tol=(1e-3, 1e-3))
    img = mixed((2, 5, 6, 3), np.float32)
    boxes = np.array([[0, 0, 1, 1], [0.1, 0.2, 0.8, 0.9], [0.5, 0.5, 0.5, 0.5], [-0.2, 0.3, 1.2, 0.6], [0.9, 0.8, 0.2, 0.1]], np.float32)
    ind = np.array([0, 1, 1, 0, 1], np.int32)
    for method, ext, crop in itertools.product(("bilinear", "nearest"), (0.0, 2.5), ((2, 3), (4, 4), (1, 1), (5, 6))):
        add("Crop/%s_%g_%s" % (method, ext, crop), lambda x, b, i, method=method, ext=ext, crop=crop: raw.CropAndResize(image=x, boxes=b, box_ind=i, crop_size=crop, method=method, extrapolation_value=ext),
            [((2, 5, 6, 3), tf.float32), ((None, 4), tf.float32), ((None,), tf.int32)], [[img, boxes, ind], [img, boxes[:1], ind[:1]]], ms=True, opsets=(9, 13))
    for k, s, same, h in itertools.product((1, 2, 3), (1, 2), (True, False), (3, 4)):
        pad = "SAME" if same else "VALID"
        oh = h * s if same else (h - 1) * s + k
        for extra in ((0, 1) if s == 2 else (0,)):
            o = oh - extra if same else oh + extra
            w = mixed((k, k, 2, 3), np.float32)
            add("Deconv/%d_%d_%s_%d_%d" % (k, s, pad, h, extra), lambda sz, x, w=w, s=s, pad=pad: tf.nn.conv2d_transpose(x, tf.constant(w), sz, s, pad), [((4,), tf.int32), ((1, h, h, 3), tf.float32)],
                [[np.array([1, o, o, 2], np.int32), mixed((1, h, h, 3), np.float32)]], ms=True, opsets=(9, 13))


def cases(tier):
    add = Add()
    strings(add, tier)
    tables(add, tier)
    microsoft(add, tier)
    return add.s.out
