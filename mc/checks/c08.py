"""C08: control flow: while loops, conditionals, tensor lists, functional ops and their nesting."""
import itertools

import numpy as np
import tensorflow as tf

from mc import fncase, tfcase
from mc.core import Case
from mc.fncase import Suite
from mc.tfcase import mixed, shp

fncase.define(globals(), "C08")
F = "float32"
v1 = tf.compat.v1

# right-hand sides of a two-variable loop body: (a, b, i, x) -> value
RHS = {
    "a": lambda a, b, i, x: a, "b": lambda a, b, i, x: b, "x": lambda a, b, i, x: x,
    "apb": lambda a, b, i, x: a + b, "axx": lambda a, b, i, x: a * x, "bpi": lambda a, b, i, x: b + tf.cast(i, tf.float32),
    "c": lambda a, b, i, x: tf.constant([1.5, -2.0]),
}


def loop2(ea, eb, cond, outs, swapinit=False, maxit=None):
    def f(x, n):
        init = (x * 2, x) if not swapinit else (x, x)

        def c(i, a, b):
            return {"n": lambda: i < n, "3": lambda: i < 3, "sum": lambda: (i < 6) & (tf.reduce_sum(a) < 20.),
                    "never": lambda: i < 0, "nb": lambda: (i < n) & (tf.reduce_max(b) < 50.)}[cond]()

        def body(i, a, b):
            return i + 1, RHS[ea](a, b, i, x), RHS[eb](a, b, i, x)
        i, a, b = tf.while_loop(c, body, [tf.constant(0), init[0], init[1]], maximum_iterations=maxit)
        full = {"i": i, "a": a, "b": b}
        return [tf.identity(full[k]) for k in outs]
    return f


BR = {  # branches: (x, y) -> value of shape [2]
    "x": lambda x, y: x, "y": lambda x, y: y, "xy": lambda x, y: x + y, "c": lambda x, y: tf.constant([3., 4.]),
    "x2": lambda x, y: x * 2., "neg": lambda x, y: -(y - x),
}
PRED = {"gt": lambda x, y: tf.reduce_sum(x) > tf.reduce_sum(y), "lt0": lambda x, y: x[0] < 0.,
        "and": lambda x, y: (x[0] < 0.) & (y[0] > 0.)}


class TestMix:
    pass


def run_group(cases):
    return [tfcase.run_joint([c]) if "build" in c.spec else fncase.run_case(c) for c in cases]


def with_v1_cf(fn):
    def build(*a):
        from tensorflow.python.ops import control_flow_util
        old = control_flow_util.ENABLE_CONTROL_FLOW_V2
        control_flow_util.ENABLE_CONTROL_FLOW_V2 = False
        try:
            return fn(*a)
        finally:
            control_flow_util.ENABLE_CONTROL_FLOW_V2 = old
    return build


def cases(tier):
    s = Suite()
    g = tfcase.Suite()
    thorough = tier == "thorough"
    x2 = np.array([0.5, -1.25], F)
    xn = [[x2, np.int32(n)] for n in (0, 1, 3)]
    SX = [([2], F), ([], "int32")]
    # ---- two-variable while loops: every pair of right-hand sides x condition x observed outputs
    for ea, eb in itertools.product(RHS, repeat=2):
        for cond in ("n", "sum", "nb"):
            s.add("while2/%s_%s/%s/iab" % (ea, eb, cond), loop2(ea, eb, cond, "iab"), SX, xn)
        for outs in ("a", "b", "ba", "ib", "aa"):
            s.add("while2/%s_%s/n/%s" % (ea, eb, outs), loop2(ea, eb, "n", outs), SX, xn)
        s.add("while2/%s_%s/n/iab/same" % (ea, eb), loop2(ea, eb, "n", "iab", True), SX, xn)
        s.add("while2/%s_%s/3/iab" % (ea, eb), loop2(ea, eb, "3", "iab"), SX, xn[:1], 12)
        s.add("while2/%s_%s/max" % (ea, eb), loop2(ea, eb, "n", "iab", maxit=2), SX, xn)
        if thorough:
            for o in (17, 15, 13, 12, 11, 10):
                s.add("while2/%s_%s/sum/ab" % (ea, eb), loop2(ea, eb, "sum", "ab"), SX, xn, o)
    s.add("while2/never", loop2("apb", "a", "never", "iab"), SX, xn)
    # three rotating variables, permutations
    for perm in itertools.product(range(3), repeat=3):
        def rot(x, n, perm=perm):
            vs = [x, x * 2, x - 1]
            r = tf.while_loop(lambda i, *v: i < n, lambda i, *v: [i + 1] + [v[p] for p in perm], [tf.constant(0)] + vs)
            return r[1:]
        s.add("rotate/%s" % "".join(map(str, perm)), rot, SX, xn)
    # counters: start, limit, step, body uses the counter
    for st, de in itertools.product((0, 2, -3), (1, 2, 3)):
        s.add("count/%d_%d" % (st, de), lambda n, st=st, de=de: tf.while_loop(lambda i, a: i < n, lambda i, a: (i + de, a * 2 + tf.cast(i, tf.float32)), [tf.constant(st), tf.constant(1.)]),
              [([], "int32")], [[np.int32(v)] for v in (-1, 0, 1, 4)])
        s.add("countdown/%d_%d" % (st, de), lambda n, st=st, de=de: tf.while_loop(lambda i, a: i > st, lambda i, a: (i - de, a * 2 + tf.cast(i, tf.float32)), [n, tf.constant(1.)]),
              [([], "int32")], [[np.int32(v)] for v in (-1, 0, 1, 4)])
    # ---- shape-changing, dtypes, captured constants, cond using captured tensor
    progs = {
        "grow": (lambda x, n: tf.while_loop(lambda i, a: i < n, lambda i, a: (i + 1, tf.concat([a, x], 0)), [tf.constant(0), x], shape_invariants=[tf.TensorShape([]), tf.TensorShape([None])])),
        "bool": (lambda x, n: tf.while_loop(lambda i, k, a: k, lambda i, k, a: (i + 1, (i + 1 < n) & (tf.reduce_sum(a) < 9.), a + 1.), [tf.constant(0), n > 0, x])),
        "cap": (lambda x, n: tf.while_loop(lambda i, a: (i < n) & (tf.reduce_sum(x) < 0.), lambda i, a: (i + 1, a + x * tf.constant([2., 3.])), [tf.constant(0), x])),
        "captwice": (lambda x, n: [q + tf.reduce_sum(x) for q in tf.while_loop(lambda i, a: i < n, lambda i, a: (i + 1, a + (x + x) * x), [tf.constant(0), x])[1:]]),
        "twoloops": (lambda x, n: tf.while_loop(lambda i, a: i < n, lambda i, a: (i + 1, a - 1.), [tf.constant(0), tf.while_loop(lambda i, a: i < n, lambda i, a: (i + 1, a * 2.), [tf.constant(0), x])[1]])),
        "parloops": (lambda x, n: [tf.while_loop(lambda i, a: i < n, lambda i, a: (i + 1, a * 2.), [tf.constant(0), x])[1], tf.while_loop(lambda i, a: i < 2, lambda i, a: (i + 1, a + x), [tf.constant(0), x])[1]]),
        "nested": (lambda x, n: tf.while_loop(lambda i, a: i < n, lambda i, a: (i + 1, tf.while_loop(lambda j, b: j < i, lambda j, b: (j + 1, b + a * x), [tf.constant(0), a])[1]), [tf.constant(0), x])),
        "nested3": (lambda x, n: tf.while_loop(lambda i, a: i < n, lambda i, a: (i + 1, tf.while_loop(lambda j, b: j < 2, lambda j, b: (j + 1, tf.while_loop(lambda k, c: k < j, lambda k, c: (k + 1, c + b * x), [tf.constant(0), b])[1]), [tf.constant(0), a])[1]), [tf.constant(0), x])),
        "condinloop": (lambda x, n: tf.while_loop(lambda i, a: i < n, lambda i, a: (i + 1, tf.cond(tf.equal(i % 2, 0), lambda: a + x, lambda: a * 2.)), [tf.constant(0), x])),
        "loopincond": (lambda x, n: tf.cond(tf.reduce_sum(x) > 0., lambda: tf.while_loop(lambda i, a: i < n, lambda i, a: (i + 1, a + x), [tf.constant(0), x])[1], lambda: x - 1.)),
        "constbody": (lambda x, n: tf.while_loop(lambda i, a: i < n, lambda i, a: (i + 1, tf.zeros_like(a)), [tf.constant(0), x])),
        "shapebody": (lambda x, n: tf.while_loop(lambda i, a: i < n, lambda i, a: (i + tf.shape(x)[0] // 2, tf.reshape(tf.reshape(a, [-1, 1]), [-1])), [tf.constant(0), x])),
        "transposebody": (lambda x, n: tf.while_loop(lambda i, a: i < n, lambda i, a: (i + 1, tf.transpose(tf.transpose(a)) + 1.), [tf.constant(0), tf.stack([x, x, x])])),
        "matbody": (lambda x, n: tf.while_loop(lambda i, a: i < n, lambda i, a: (i + 1, tf.matmul(a, tf.constant([[1., 2.], [0., 1.]]))), [tf.constant(0), tf.stack([x, x, x])])),
        "float64cond": (lambda x, n: tf.while_loop(lambda i, a: tf.cast(i, tf.float32) < tf.cast(n, tf.float32) + 0.5, lambda i, a: (i + 1, a + 1.), [tf.constant(0), x])),
        "int64": (lambda x, n: tf.while_loop(lambda i, a: i < tf.cast(n, tf.int64), lambda i, a: (i + 1, a + tf.cast(i, tf.float32)), [tf.constant(0, tf.int64), x])),
        "outsum": (lambda x, n: tf.reduce_sum(tf.while_loop(lambda i, a: i < n, lambda i, a: (i + 1, a + 1.), [tf.constant(0), x])[1])),
        "ta": (lambda x, n: tf.while_loop(lambda i, t: i < n, lambda i, t: (i + 1, t.write(i, x * tf.cast(i, tf.float32))), [tf.constant(0), tf.TensorArray(tf.float32, size=n, element_shape=[2])])[1].stack()),
        "tascan": (lambda x, n: [q[1].stack() if k == 0 else q[2] for k, q in enumerate([tf.while_loop(lambda i, t, a: i < n, lambda i, t, a: (i + 1, t.write(i, a), a * 2. + x), [tf.constant(0), tf.TensorArray(tf.float32, size=n, element_shape=[2]), x])] * 2)]),
        "taread": (lambda x, n: tf.while_loop(lambda i, a: i < n % 3, lambda i, a: (i + 1, a + tf.TensorArray(tf.float32, size=2).unstack(x).read(i)), [tf.constant(0), tf.constant(0.)])),
        "tareadcap": (lambda x, n: (lambda ta: tf.while_loop(lambda i, a: i < n % 3, lambda i, a: (i + 1, a * 3. + ta.read(i)), [tf.constant(0), tf.constant(0.)]))(tf.TensorArray(tf.float32, size=2).unstack(x))),
        "tarw": (lambda x, n: (lambda ta: tf.while_loop(lambda i, t: i < 2, lambda i, t: (i + 1, t.write(i, ta.read(i) * 2. + tf.cast(n, tf.float32))), [tf.constant(0), tf.TensorArray(tf.float32, size=2)])[1].stack())(tf.TensorArray(tf.float32, size=2).unstack(x))),
        "twota": (lambda x, n: [t.stack() for t in tf.while_loop(lambda i, t, u: i < n, lambda i, t, u: (i + 1, t.write(i, x), u.write(i, x * tf.cast(i, tf.float32))), [tf.constant(0), tf.TensorArray(tf.float32, size=n, element_shape=[2]), tf.TensorArray(tf.float32, size=n, element_shape=[2])])[1:]]),
        "tagather": (lambda x, n: tf.TensorArray(tf.float32, size=2).unstack(x).gather([1, 0, 1])),
        "tastack": (lambda x, n: tf.TensorArray(tf.float32, size=2).unstack(x).stack()),
        "taconcat": (lambda x, n: tf.while_loop(lambda i, t: i < 2, lambda i, t: (i + 1, t.write(i, x + tf.cast(i, tf.float32))), [tf.constant(0), tf.TensorArray(tf.float32, size=2, element_shape=[2])])[1].concat()),
        "tareverse": (lambda x, n: tf.while_loop(lambda i, t: i < 3, lambda i, t: (i + 1, t.write(2 - i, x * tf.cast(i, tf.float32))), [tf.constant(0), tf.TensorArray(tf.float32, size=3, element_shape=[2])])[1].stack()),
        "tasize": (lambda x, n: (lambda ta: tf.while_loop(lambda i, a: i < ta.size(), lambda i, a: (i + 1, a + ta.read(i)), [tf.constant(0), tf.constant(0.)]))(tf.TensorArray(tf.float32, size=2).unstack(x))),
        "map": (lambda x, n: tf.map_fn(lambda v: v * 2. + tf.cast(n, tf.float32), x)),
        "map2": (lambda x, n: tf.map_fn(lambda v: v[0] * v[1], (x, x + 1.), fn_output_signature=tf.float32)),
        "mapidx": (lambda x, n: tf.map_fn(lambda i: tf.gather(x, i) + 1., tf.range(2), fn_output_signature=tf.float32)),
        "mapint": (lambda x, n: tf.map_fn(lambda v: tf.cast(v * 4., tf.int32), x, fn_output_signature=tf.int32)),
        "scan": (lambda x, n: tf.scan(lambda a, v: a * 2. + v, x)), "scaninit": (lambda x, n: tf.scan(lambda a, v: a - v, x, initializer=tf.cast(n, tf.float32))),
        "scanrev": (lambda x, n: tf.scan(lambda a, v: a * 2. + v, x, reverse=True)),
        "foldl": (lambda x, n: tf.foldl(lambda a, v: a * 2. + v, x)), "foldr": (lambda x, n: tf.foldr(lambda a, v: a * 2. + v, x)),
        "case": (lambda x, n: tf.case([(n < 1, lambda: x), (n < 2, lambda: x * 2.)], default=lambda: x - 1.)),
        "caseexcl": (lambda x, n: tf.case([(tf.equal(n, 1), lambda: x), (tf.equal(n, 3), lambda: x * 2.)], default=lambda: x - 1., exclusive=True)),
        "switchcase": (lambda x, n: tf.switch_case(n, [lambda: x, lambda: x * 2., lambda: x + 3.])),
        "fncall": (lambda x, n: tf.function(lambda v: v * 2. + x)(x) + tf.function(lambda v: v - 1.)(x)),
        "fncallnested": (lambda x, n: tf.function(lambda v: tf.function(lambda w: w * v)(v + 1.))(x)),
        "fncallcond": (lambda x, n: tf.cond(n > 1, lambda: tf.function(lambda v: v * 2.)(x), lambda: x)),
        "assertcond": (lambda x, n: tf.cond(n > 1, lambda: (x, n), lambda: (x * 2., n + 1))),
        "unusedcap": (lambda x, n: tf.cond(n > 1, lambda: x * 1., lambda: tf.zeros([2]))),
        "condshape": (lambda x, n: tf.cond(n > 1, lambda: x, lambda: tf.concat([x, x], 0))),
        "condint": (lambda x, n: tf.cond(n > 1, lambda: n, lambda: n * 3)),
        "condconst": (lambda x, n: tf.cond(n > 1, lambda: tf.constant(1), lambda: tf.constant(2))),
        "condbool": (lambda x, n: tf.cond(n > 1, lambda: x > 0., lambda: x < 0.)),
        "condpredcast": (lambda x, n: tf.cond(tf.cast(n, tf.bool), lambda: x, lambda: -x)),
        "condnot": (lambda x, n: tf.cond(tf.logical_not(n > 1), lambda: x, lambda: -x)),
        "condafter": (lambda x, n: tf.cond(n > 1, lambda: x, lambda: -x) * tf.cond(n > 0, lambda: x + 1., lambda: x)),
        "condchain": (lambda x, n: tf.cond(n > 1, lambda: tf.cond(n > 0, lambda: x, lambda: -x), lambda: tf.cond(n > 0, lambda: x * 2., lambda: x * 3.))),
        "condsame": (lambda x, n: [a for a in tf.cond(n > 1, lambda: (x, x), lambda: (x, -x))]),
        "condmany": (lambda x, n: tf.cond(n > 1, lambda: (x, n, x * 2.), lambda: (-x, n + 1, x))[1:]),
        "condunused": (lambda x, n: tf.cond(n > 1, lambda: (x, n, x * 2.), lambda: (-x, n + 1, x))[2]),
    }
    for nm, f in progs.items():
        for o in (18, 13, 12, 11) if thorough else (18, 11):
            s.add("prog/" + nm, f, SX, [[x2, np.int32(n)] for n in (0, 1, 2, 3)], o)
            s.add("prog/" + nm + "/dyn", f, [([None], F), ([], "int32")], [[x2, np.int32(n)] for n in (0, 1, 3)], o) if o == 18 else None
    # ---- conditionals: every pair of branches x predicate, one and two results
    xy = [[np.array(a, F), np.array(b, F)] for a, b in (([1, 2], [0, 1]), ([-1, 2], [3, 1]), ([0, 0], [0, 0]), ([-2, 0], [-1, 1]))]
    SY = [([2], F)] * 2
    for t, e in itertools.product(BR, repeat=2):
        for p in PRED:
            s.add("cond/%s_%s/%s" % (t, e, p), lambda x, y, t=t, e=e, p=p: tf.cond(PRED[p](x, y), lambda: BR[t](x, y), lambda: BR[e](x, y)), SY, xy, 18 if p != "lt0" else 11)
        s.add("cond2/%s_%s" % (t, e), lambda x, y, t=t, e=e: tf.cond(PRED["gt"](x, y), lambda: (BR[t](x, y), BR[e](x, y)), lambda: (BR[e](x, y), BR["xy"](x, y))), SY, xy)
        s.add("condnest/%s_%s" % (t, e), lambda x, y, t=t, e=e: tf.cond(PRED["gt"](x, y), lambda: tf.cond(PRED["lt0"](x, y), lambda: BR[t](x, y), lambda: BR[e](x, y)) + x, lambda: BR[t](x, y)), SY, xy)
        s.add("condloop/%s_%s" % (t, e), lambda x, y, t=t, e=e: tf.while_loop(lambda i, a, b: i < 3, lambda i, a, b: (i + 1, tf.cond(PRED["gt"](a, b), lambda: BR[t](a, b), lambda: BR[e](a, b)), b + 1.), [tf.constant(0), x, y])[1:], SY, xy)
        # a conditional in the TF1 dataflow encoding (Switch / Merge)
        for o in (18, 11):
            g.add("cond1/%s_%s" % (t, e), with_v1_cf(lambda x, y, t=t, e=e: v1.cond(PRED["gt"](x, y), lambda: tf.identity(BR[t](x, y)), lambda: tf.identity(BR[e](x, y)))),
                  [([2], F)] * 2, xy, o)
        g.add("cond1n/%s_%s" % (t, e), with_v1_cf(lambda x, y, t=t, e=e: v1.cond(PRED["gt"](x, y), lambda: v1.cond(PRED["lt0"](x, y), lambda: tf.identity(BR[t](x, y)), lambda: tf.identity(BR[e](x, y))) + x, lambda: tf.identity(BR[t](x, y)))),
              [([2], F)] * 2, xy, 18)
        g.add("cond1m/%s_%s" % (t, e), with_v1_cf(lambda x, y, t=t, e=e: v1.cond(PRED["gt"](x, y), lambda: (tf.identity(BR[t](x, y)), BR[e](x, y) + 1.), lambda: (tf.identity(BR[e](x, y)), BR["xy"](x, y)))),
              [([2], F)] * 2, xy, 18)
    # ---- TF1 dataflow loops (Enter/Switch/Merge/NextIteration/Exit)
    for ea, eb in itertools.product(RHS, repeat=2):
        for cond in ("n", "nb"):
            g.add("while1/%s_%s/%s" % (ea, eb, cond), with_v1_cf(loop2(ea, eb, cond, "iab")), SX, xn, 18)
        g.add("while1/%s_%s/n/b" % (ea, eb), with_v1_cf(loop2(ea, eb, "n", "b")), SX, xn, 18)
    for nm in ("grow", "cap", "captwice", "twoloops", "parloops", "constbody", "matbody", "transposebody", "nested", "condinloop", "loopincond",
               "ta", "tascan", "tareadcap", "tarw", "twota", "map", "map2", "scan", "scaninit", "foldl", "case", "condmany", "condunused", "condchain"):
        g.add("prog1/" + nm, with_v1_cf(progs[nm]), SX, [[x2, np.int32(n)] for n in (1, 3)], 18)
    return s.out + g.out
