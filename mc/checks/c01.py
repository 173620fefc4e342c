"""C01: element-wise arithmetic, comparison, logic, cast and selection ops."""
import itertools

import numpy as np
import tensorflow as tf

from mc import tfcase
from mc.tfcase import make_case, mixed

ID = "C01"
LEVEL = "exploration"
TECHNIQUE = "bounded-exhaustive exploration of programs x shapes x dtypes x feeds on the real converter, TensorFlow as reference"
RULE = ("one program per (op, dtype, operand shapes, static/unknown dims, variable/constant operands, opset); every "
        "program is converted, run in onnxruntime on its whole feed alphabet and compared with TensorFlow; distinct = "
        "distinct emitted op sequences")
ASSUMPTIONS = ["onnxruntime CPU kernels and TensorFlow CPU kernels are the references",
               "float results compared within rtol 1e-4 / atol 1e-5"]
GROUP = 12
setup = tfcase.quiet
run_group = tfcase.run_group
group_key = tfcase.group_key
R = tf.raw_ops

FLO = ["float32", "float64"]
UNARY = {
    "Abs": ["float32", "float64", "int32", "int64"], "Ceil": FLO, "Elu": FLO, "Exp": FLO, "Floor": FLO, "Log": FLO,
    "Neg": ["float32", "float64", "int32", "int64"], "Relu": ["float32", "float64", "int32"], "Sigmoid": FLO,
    "Sqrt": FLO, "Tanh": FLO, "Reciprocal": FLO, "Acos": ["float32"], "Asin": ["float32"], "Atan": ["float32"],
    "Cos": FLO, "Sin": FLO, "Tan": ["float32"], "Acosh": ["float32"], "Asinh": ["float32"],
    "Atanh": ["float32"], "Cosh": ["float32"], "Sinh": ["float32"], "Softplus": FLO, "Softsign": FLO,
    "Square": ["float32", "float64", "int32", "int64"], "Relu6": ["float32", "float64", "int32"], "Rsqrt": FLO,
    "Sign": ["float32", "float64", "int32", "int64"], "Erf": ["float32"], "Selu": FLO,
    "Round": ["float32", "float64", "int32", "int64"], "Rint": FLO, "IsFinite": FLO, "IsNan": FLO,
    "IsInf": FLO, "LogicalNot": ["bool"], "ZerosLike": ["float32", "int32", "int64", "bool"],
    "OnesLike": ["float32", "int32", "int64"], "Invert": ["int32", "int64", "uint8"], "Identity": ["float32", "string"],
    "StopGradient": ["float32", "int32"], "Softmax": FLO, "LogSoftmax": FLO, "HardSwish": ["float32"],
    "LeakyRelu": ["float32"], "Size": ["float32", "int32"], "Shape": ["float32", "int64"], "ComplexAbs": [],
}
POSITIVE = {"Log", "Sqrt", "Rsqrt"}
UNIT = {"Acos", "Asin", "Atanh"}

BINARY = {
    "AddV2": ["float32", "float64", "int32", "int64"], "Sub": ["float32", "int32", "int64"],
    "Mul": ["float32", "float64", "int32", "int64"], "Div": ["float32", "float64", "int32"], "RealDiv": ["float32", "float64"],
    "TruncateDiv": ["int32", "int64"], "DivNoNan": ["float32", "float64"],
    "FloorDiv": ["float32", "float64", "int32", "int64"], "FloorMod": ["float32", "float64", "int32", "int64"],
    "Maximum": ["float32", "float64", "int32", "int64"], "Minimum": ["float32", "float64", "int32", "int64"],
    "Pow": ["float32", "float64", "int32", "int64"], "SquaredDifference": ["float32", "int32", "int64"],
    "Greater": ["float32", "float64", "int32", "int64"], "GreaterEqual": ["float32", "float64", "int32", "int64"],
    "Less": ["float32", "float64", "int32", "int64"], "LessEqual": ["float32", "float64", "int32", "int64"],
    "Equal": ["float32", "float64", "int32", "int64", "bool"],   # strings: C11
    "NotEqual": ["float32", "float64", "int32", "int64", "bool"],
    "LogicalAnd": ["bool"], "LogicalOr": ["bool"],
    "BitwiseAnd": ["int32", "uint8", "int64"], "BitwiseOr": ["int32", "uint8"], "BitwiseXor": ["int32", "uint8"],
    "LeftShift": ["int32", "int64", "uint8", "int8"], "RightShift": ["int32", "int64", "uint8", "int8"],
    "Atan2": ["float32", "float64"],
}
SHAPES = [[], [1], [3], [2, 1], [1, 3], [2, 3], [2, 1, 3], [0], [0, 3]]
PAIRS = []
for _a, _b in itertools.product(SHAPES, SHAPES):
    try:
        np.broadcast_shapes(tuple(_a), tuple(_b))
        PAIRS.append((_a, _b))
    except ValueError:
        pass
QUICK_PAIRS = [p for p in PAIRS if p in (([], []), ([3], [3]), ([2, 3], [2, 3]), ([2, 3], []), ([], [2, 3]),
                                         ([3], [2, 3]), ([2, 3], [3]), ([2, 1], [3]), ([2, 1], [1, 3]),
                                         ([1], [2, 3]), ([2, 1, 3], [2, 3]), ([0, 3], [3]), ([3], [2, 1]),
                                         ([1, 3], [2, 1, 3]))]


def vec(name, dt, n=17):
    if dt == "string":
        return np.array(["", "a", "b", "A", "aa"] * 4, dtype=object)[:n]
    if dt == "bool":
        return np.array([True, False, False, True, True] * 4)[:n]
    a = mixed([n], dt)
    if dt.startswith("float"):
        if name in POSITIVE:
            a = np.abs(a) + 0.1
        elif name in UNIT:
            a = a / 6
        elif name == "Acosh":
            a = np.abs(a) + 1.0
        a = a.astype(dt)
    return a


def special(name, dt):
    if dt.startswith("float"):
        if name in ("IsFinite", "IsNan", "IsInf", "Abs", "Neg", "Relu", "Sigmoid", "Tanh", "Exp", "Relu6", "Sign",
                    "Floor", "Ceil", "Round", "Rint", "Elu", "Selu", "Softplus", "Erf", "Identity"):
            inf = [np.inf, -np.inf] if name not in ("Relu6",) else []
            nan = [np.nan] if name in ("IsFinite", "IsNan", "IsInf", "Abs", "Neg", "Identity") else []
            return np.array([0.0, -0.0, 0.5, -0.5, 1.5, 2.5, -1.5, -2.5, 6.0, 6.5, 1e-6, -1e-6] + inf + nan, dt)
        return None
    if dt in ("int32", "int64") and name not in ("Square",):
        return np.array([0, 1, -1, 2, -7, 7, 100, -100, 2**24 + 1, -(2**24) - 1], dt)
    return None


def unary(name, opset, extra=None):
    fn = getattr(R, name)

    def call(x):
        key = {"LogicalNot": "x", "Relu": "features", "Relu6": "features", "Elu": "features", "Selu": "features",
               "Softplus": "features", "Softsign": "features", "Softmax": "logits", "LogSoftmax": "logits",
               "LeakyRelu": "features", "Identity": "input", "StopGradient": "input", "Size": "input",
               "Shape": "input"}.get(name, "x")
        return fn(**{key: x}, **(extra or {}))
    return call


def broadcast_operand(shape, dt, salt, role, name):
    if dt == "string":
        n = int(np.prod(shape)) if shape else 1
        return np.array((["a", "b", "", "ab", "a"] * 3)[salt:salt + n], dtype=object).reshape(shape)
    a = mixed(shape, dt, salt)
    if name in ("LeftShift", "RightShift"):
        a = a.astype(np.int64)
        a = (np.abs(a) % 7 if role == 1 else np.sign(a) * (np.abs(a) % 100)).astype(dt)
    if name == "Pow":
        if dt.startswith("int"):
            a = (np.abs(a) % 4 if role == 1 else a % 5 - 2).astype(dt)
        else:
            a = (np.abs(a) + 0.25 if role == 0 else np.clip(a, -3, 3)).astype(dt)
    if role == 1 and name in ("Div", "RealDiv", "TruncateDiv", "FloorDiv", "FloorMod"):
        a = np.where(a == 0, np.array(3).astype(dt), a).astype(dt)
    return np.asarray(a).astype(dt)


def cases(tier):
    out = []
    opsets = [18, 15, 12, 9] if tier == "quick" else list(range(18, 6, -1))
    for name, dts in UNARY.items():
        for dt in dts:
            for opset in opsets:
                variants = [("dyn1", [None], [[vec(name, dt)], [vec(name, dt)[:0]]] if name not in ("Softmax", "LogSoftmax") else [[vec(name, dt)]])]
                sp = special(name, dt)
                if sp is not None and name not in ("Softmax", "LogSoftmax"):
                    variants.append(("edge", [None], [[sp]]))
                variants.append(("static2", [2, 3], [[vec(name, dt)[:6].reshape(2, 3)], [vec(name, dt)[6:12].reshape(2, 3)]]))
                variants.append(("dyn3", [None, 2, None], [[vec(name, dt)[:12].reshape(2, 2, 3)], [vec(name, dt)[:4].reshape(1, 2, 2)]]))
                if name not in ("Softmax", "LogSoftmax"):
                    variants.append(("scalar", [], [[vec(name, dt)[k].reshape(()) if dt != "string" else np.array(vec(name, dt)[k], dtype=object)] for k in (0, 1, 2)]))
                for vn, shape, feeds in variants:
                    extra = None
                    if name in ("Size", "Shape"):
                        for ot in ("int32", "int64"):
                            out.append(make_case("u/%s/%s/%s/%s/o%d" % (name, dt, ot, vn, opset),
                                                 unary(name, opset, {"out_type": tf.as_dtype(ot)}), [(shape, dt)], feeds, opset))
                        continue
                    if name == "LeakyRelu":
                        for al in (0.2, 0.0, 1.0, 1.5):
                            out.append(make_case("u/%s/%s/a%s/%s/o%d" % (name, dt, al, vn, opset),
                                                 unary(name, opset, {"alpha": al}), [(shape, dt)], feeds, opset))
                        continue
                    if name == "HardSwish":
                        continue
                    out.append(make_case("u/%s/%s/%s/o%d" % (name, dt, vn, opset), unary(name, opset), [(shape, dt)], feeds, opset))
    pairs = QUICK_PAIRS if tier == "quick" else PAIRS
    for name, dts in BINARY.items():
        fn = getattr(R, name)
        for dt in dts:
            for opset in opsets:
                for (sa, sb) in pairs:
                    for mode in ("static", "dyn", "constl", "constr"):
                        if opset != 18 and tier == "quick" and (mode in ("dyn", "constl") or (sa, sb) not in (
                                ([2, 3], [2, 3]), ([2, 3], []), ([], [2, 3]), ([2, 3], [3]), ([2, 1], [3]))):
                            continue
                        if mode.startswith("const") and len(sa) + len(sb) == 0:
                            continue
                        if name == "Pow" and mode == "constr" and len(sb) > len(sa) and np.prod(sb) == 1:
                            continue   # TensorFlow itself makes x*x of x**[2] without its shape
                        fa = [broadcast_operand(sa, dt, s, 0, name) for s in (0, 3)]
                        fb = [broadcast_operand(sb, dt, s, 1, name) for s in (1, 4)]
                        if mode in ("static", "dyn"):
                            ia = (sa if mode == "static" else [None] * len(sa), dt)
                            ib = (sb if mode == "static" else [None] * len(sb), dt)
                            out.append(make_case("b/%s/%s/%s-%s/%s/o%d" % (name, dt, shp(sa), shp(sb), mode, opset),
                                                 binary(fn), [ia, ib], [list(p) for p in zip(fa, fb)], opset))
                        elif mode == "constl":
                            out.append(make_case("b/%s/%s/%s-%s/%s/o%d" % (name, dt, shp(sa), shp(sb), mode, opset),
                                                 binary_c(fn, left=fa[0]), [([None] * len(sb), dt)], [[x] for x in fb], opset))
                        else:
                            out.append(make_case("b/%s/%s/%s-%s/%s/o%d" % (name, dt, shp(sa), shp(sb), mode, opset),
                                                 binary_c(fn, right=fb[0]), [([None] * len(sa), dt)], [[x] for x in fa], opset))
    # every sign combination of an integer/float division and remainder
    for name in ("Div", "TruncateDiv", "FloorDiv", "FloorMod", "RealDiv", "DivNoNan", "Atan2", "Pow"):
        fn = getattr(R, name)
        for dt in BINARY[name]:
            for opset in opsets:
                if dt.startswith("int"):
                    xs = np.array([a for a in range(-6, 7)], dt)
                    ys = np.array([b for b in range(-4, 5) if b != 0], dt)
                    if name == "Pow":
                        ys = np.array([0, 1, 2, 3], dt)
                else:
                    xs = np.array([-6.5, -3.0, -1.0, -0.5, 0.0, 0.5, 1.0, 2.0, 5.25], dt)
                    ys = np.array([-4.0, -1.5, -1.0, 0.5, 1.0, 3.0] + ([0.0] if name in ("DivNoNan", "Atan2") else []), dt)
                    if name == "Pow":
                        xs, ys = np.array([0.0, 0.5, 1.0, 2.0, 3.0], dt), np.array([0.0, 0.5, 1.0, 2.0, 3.0], dt)
                for sa, sb in (("pp", ""), ("pn", ""), ("np", ""), ("nn", ""), ("all", "")):
                    x2, y2 = xs, ys
                    if sa != "all":
                        x2 = xs[xs >= 0] if sa[0] == "p" else xs[xs < 0]
                        y2 = ys[ys >= 0] if sa[1] == "p" else ys[ys < 0]
                    if not len(x2) or not len(y2):
                        continue
                    out.append(make_case("g/%s/%s/%s/o%d" % (name, dt, sa, opset), binary(fn),
                                         [([None, 1], dt), ([None], dt)], [[x2.reshape(-1, 1), y2]], opset))
    # casts: every pair
    types = ["float32", "float64", "float16", "int32", "int64", "int16", "int8", "uint8", "uint16", "bool"]
    for a, b in itertools.product(types, types):
        for opset in opsets:
            vals = np.array([0, 1, 2, 3, 100, 0], a)
            if a.startswith("float"):
                vals = np.array([0.0, -0.0, 0.5, 1.0, 1.5, 2.5, 100.75], a)
            if not a.startswith("u") and a != "bool" and not b.startswith("u"):
                vals = np.concatenate([vals, np.array([-1, -2.5 if a.startswith("float") else -3], a)])
            out.append(make_case("cast/%s/%s/o%d" % (a, b, opset), cast_to(b), [([None], a)], [[vals], [vals[:0]]], opset))
            if opset == 18:
                for c in ("float32", "int32", "bool", "int64"):
                    if c == "bool" and a.startswith("float") and "int" in b:
                        continue    # onnxruntime itself collapses float -> int -> bool, whatever the model says
                    pos = np.abs(vals.astype("float64")).astype(a)
                    out.append(make_case("cast2/%s/%s/%s/o%d" % (a, b, c, opset), cast2(b, c), [([None], a)], [[pos]], opset))
    # selection / clip
    for opset in opsets:
        for dt in ("float32", "int32", "int64", "bool", "float64", "string"):
            for cs, xs, ys in ([[2, 3], [2, 3], [2, 3]], [[], [2, 3], [2, 3]], [[2, 1], [2, 3], [3]], [[3], [], [2, 3]],
                               [[2, 1], [1, 3], []], [[], [], []], [[1], [3], [2, 1]]):
                for dyn in (0, 1):
                    ins = [([None] * len(s) if dyn else s, d) for s, d in zip((cs, xs, ys), ("bool", dt, dt))]
                    feeds = [[np.array(mixed(cs, "bool", k)), broadcast_operand(xs, dt, k, 0, ""), broadcast_operand(ys, dt, k + 2, 0, "")] for k in (0, 1)]
                    out.append(make_case("sel/SelectV2/%s/%s-%s-%s/d%d/o%d" % (dt, shp(cs), shp(xs), shp(ys), dyn, opset),
                                         lambda c, x, y: R.SelectV2(condition=c, t=x, e=y), ins, feeds, opset))
            for cs, xs in ([[2, 3], [2, 3]], [[2], [2, 3]], [[], [2, 3]], [[2], [2, 3, 2]], [[3], [3]]):
                for dyn in (0, 1):
                    ins = [([None] * len(s) if dyn else s, d) for s, d in zip((cs, xs, xs), ("bool", dt, dt))]
                    feeds = [[np.array(mixed(cs, "bool", k)), broadcast_operand(xs, dt, k, 0, ""), broadcast_operand(xs, dt, k + 1, 0, "")] for k in (0, 1)]
                    if dt == "string" and len(xs) == 3:
                        continue
                    out.append(make_case("sel/Select/%s/%s-%s/d%d/o%d" % (dt, shp(cs), shp(xs), dyn, opset),
                                         lambda c, x, y: R.Select(condition=c, x=x, y=y), ins, feeds, opset))
        for dt in ("float32", "float64") if opset >= 9 else ():
            bad = np.array([[np.inf, -np.inf, np.nan, 1, 2, -3]], dt)
            for tag, fn in (("v2", lambda c, x, y: R.SelectV2(condition=c, t=x, e=y)), ("v1", lambda c, x, y: R.Select(condition=c, x=x, y=y)),
                            ("mul", lambda c, x, y: tf.where(c, x * y, y)), ("nested", lambda c, x, y: tf.where(c, x, tf.where(tf.math.is_nan(y), x, y)))):
                for cv in ([[True] * 6], [[False] * 6], [[True, False] * 3]):
                    out.append(make_case("selnan/%s/%s/%d/o%d" % (tag, dt, sum(cv[0]), opset), fn, [([None, 6], "bool"), ([None, 6], dt), ([None, 6], dt)],
                                         [[np.array(cv), bad, bad[:, ::-1]], [np.array(cv), np.ones([1, 6], dt), bad]], opset))
            for tag, fn in (("log", lambda x: tf.where(x > 0, tf.math.log(x), tf.zeros_like(x))), ("div", lambda x: tf.where(tf.equal(x, 0), tf.ones_like(x), 1 / x)),
                            ("const", lambda x: tf.where(x > 0, x, tf.constant(np.float32("-inf"), x.dtype))), ("sqrt", lambda x: tf.where(x >= 0, tf.sqrt(x), x))):
                if tag == "div" and opset < 11:
                    continue    # Equal
                out.append(make_case("selnan/%s/%s/o%d" % (tag, dt, opset), fn, [([None, 5], dt)], [[np.array([[0, 1, -1, 2.5, -0.5]], dt)]], opset))
        for dt in ("float32", "int32", "int64", "float64"):
            for lo, hi in ((0, 3), (-2, 2), (1, 1), (-100, 100)):
                for mode in ("const", "var"):
                    x = mixed([2, 5], dt)
                    if mode == "const":
                        out.append(make_case("clip/%s/%s_%s/const/o%d" % (dt, lo, hi, opset),
                                             clip_const(lo, hi, dt), [([None, 5], dt)], [[x]], opset))
                    else:
                        out.append(make_case("clip/%s/%s_%s/var/o%d" % (dt, lo, hi, opset),
                                             lambda x, a, b: R.ClipByValue(t=x, clip_value_min=a, clip_value_max=b),
                                             [([None, 5], dt), ([], dt), ([], dt)],
                                             [[x, np.array(lo, dt), np.array(hi, dt)]], opset))
        for n in (1, 2, 3, 4):
            for dt in ("float32", "int32", "float64"):
                out.append(make_case("addn/%s/%d/o%d" % (dt, n, opset), lambda *a: R.AddN(inputs=list(a)),
                                     [([None, 3], dt)] * n, [[mixed([2, 3], dt, k) for k in range(n)]], opset))
        for dt in ("float32", "float64"):
            x = mixed([2, 3, 4], dt)
            out.append(make_case("prelu/keras/%s/o%d" % (dt, opset), lambda x: tf.maximum(x, 0) + tf.constant(
                [0.1, -0.5, 2.0, 0.0], x.dtype) * tf.minimum(x, 0), [([None, 3, 4], dt)], [[x]], opset))
    # every two-op composition over a small alphabet (optimiser and rewriters see producer/consumer pairs)
    alpha = {
        "abs": tf.abs, "neg": tf.negative, "relu": tf.nn.relu, "sig": tf.sigmoid, "sq": tf.square,
        "add1": lambda x: x + 1.0, "mul2": lambda x: 2.0 * x, "rsub": lambda x: 1.0 - x, "divc": lambda x: x / 4.0,
        "max0": lambda x: tf.maximum(x, 0.0), "min1": lambda x: tf.minimum(1.0, x), "castround": lambda x: tf.cast(tf.cast(x, tf.int32), tf.float32),
        "castbool": lambda x: tf.cast(tf.cast(x, tf.bool), tf.float32), "ident": tf.identity,
        "leaky": lambda x: tf.maximum(0.3 * x, x), "sgn": tf.sign, "floor": tf.floor, "selfadd": lambda x: x + x,
        "selfmul": lambda x: x * x, "where": lambda x: tf.where(x > 0.5, x, tf.zeros_like(x)),
    }
    depth = 2 if tier == "quick" else 3
    for seq in itertools.product(alpha, repeat=depth):
        if "castround-castbool" in "-".join(q for q in seq if q != "ident"):
            continue    # see cast2
        out.append(make_case("chain/%s/o18" % "-".join(seq), compose([alpha[s] for s in seq]), [([None, 3], "float32")],
                             [[mixed([2, 3], "float32")], [mixed([1, 3], "float32", 2)]], 18))
    return out


def shp(s):
    return "x".join(map(str, s)) or "s"


def binary(fn):
    return lambda a, b: fn(**_ab(fn, a, b))


def _ab(fn, a, b):
    return {"y": a, "x": b} if fn is R.Atan2 else {"x": a, "y": b}


def binary_c(fn, left=None, right=None):
    if left is not None:
        return lambda b: fn(**_ab(fn, tf.constant(left, dtype=b.dtype), b))
    return lambda a: fn(**_ab(fn, a, tf.constant(right, dtype=a.dtype)))


def cast_to(b):
    return lambda x: tf.raw_ops.Cast(x=x, DstT=tf.as_dtype(b))


def cast2(b, c):
    return lambda x: tf.raw_ops.Cast(x=tf.raw_ops.Cast(x=x, DstT=tf.as_dtype(b)), DstT=tf.as_dtype(c))


def clip_const(lo, hi, dt):
    return lambda x: R.ClipByValue(t=x, clip_value_min=tf.constant(lo, dt), clip_value_max=tf.constant(hi, dt))


def compose(fs):
    def f(x):
        for g in fs:
            x = g(x)
        return x
    return f
