"""C13: random operators: shape, type, range, scale, independence, and values that depend on one draw stay consistent."""
import itertools

import numpy as np
import onnx
import onnxruntime as ort
import tensorflow as tf

from mc import tfcase
from mc.core import Case, Outcome
from mc.tfcase import shp

tfcase.define(globals(), "C13", rule="one program per (random operator x range or moments x shape source x dtype x seed x what else reads the draw x opset); each is converted, "
              "run twice in one session and once in another, and every relation between its outputs that holds for all draws in TensorFlow is evaluated on the outputs",
              assumptions=["the distribution itself is only bounded by range, moments within 8 standard errors and by draws not repeating"])
GROUP = 1
R = tf.raw_ops
v1 = tf.compat.v1


class S:
    def __init__(self):
        self.out, self.ids = [], set()

    def add(self, cid, build, check, inputs=(), feed=(), opset=18, exact_rerun=False):
        cid = "%s/o%d" % (cid, opset)
        if cid not in self.ids:
            self.ids.add(cid)
            self.out.append(Case(cid, dict(build=build, check=check, inputs=list(inputs), feed=list(feed), opset=opset, exact=exact_rerun)))


def run_case(case):
    s = case.spec
    g = tf.Graph()
    try:
        with g.as_default():
            phs = [v1.placeholder(dt, sh, name="in_%d" % i) for i, (sh, dt) in enumerate(s["inputs"])]
            outs = s["build"](*phs)
            outs = [tf.identity(o, name="out_%d" % i) for i, o in enumerate(outs)]
        fd = {p.name: np.asarray(v) for p, v in zip(phs, s["feed"])}
        with v1.Session(graph=g) as sess:
            want = sess.run([o.name for o in outs], feed_dict=fd)
        bad = s["check"](want, want)
        if bad:
            return Outcome("skip", "the relation does not hold in TensorFlow: %s" % bad)
    except Exception as e:  # pylint: disable=broad-except
        return Outcome("skip", "TensorFlow: %s" % str(e)[:300], evals=0)
    names = [o.name for o in outs]
    try:
        with g.as_default():
            model = tfcase.convert(g, list(fd), names, opset=s["opset"])
    except Exception as e:  # pylint: disable=broad-except
        return Outcome("refused", "%s: %s" % (type(e).__name__, str(e)[:500]))
    bad = tfcase.foreign_nodes(model)
    if bad:
        return Outcome("foreign-op", "the model has ops no runtime knows: %s" % sorted(set(bad)))
    try:
        try:
            onnx.checker.check_model(model)
        except onnx.checker.ValidationError as e:
            if "Field 'shape' of 'type' is required" not in str(e) or all(tfcase.shape_of(o) is not None for o in model.graph.output):
                raise
        ort.set_seed(11)        # what onnxruntime seeds the operators with that have no seed of their own
        sess = tfcase.ort_session(model)
        ort.set_seed(9999)
        other = tfcase.ort_session(model)
    except Exception as e:  # pylint: disable=broad-except
        return Outcome("unrunnable" if any(k in str(e) for k in tfcase.NO_KERNEL) else "invalid", str(e)[:400])
    have = {i.name for i in sess.get_inputs()}
    runs = []
    try:
        for q in (sess, sess, other):
            runs.append(q.run(names, {k: v for k, v in fd.items() if k in have}))
    except Exception as e:  # pylint: disable=broad-except
        return Outcome("unrunnable" if any(k in str(e) for k in tfcase.NO_KERNEL) else "runtime", str(e)[:400])
    for r in runs:
        for n, w, o, vi in zip(names, want, r, model.graph.output):
            if w.dtype != o.dtype or w.shape != o.shape:
                return Outcome("mismatch", "%s: %s %s instead of %s %s" % (n, o.dtype, o.shape, w.dtype, w.shape))
            d = tfcase.declared_wrong(vi, o)
            if d:
                return Outcome("declared", "%s: %s" % (n, d))
    for r in runs:
        d = s["check"](r, want)
        if d:
            return Outcome("mismatch", "%s; ops %s" % (d, [n.op_type for n in model.graph.node]))
    same = all((a == b).all() for a, b in zip(runs[0], runs[2]))
    if s["exact"] and not same:
        return Outcome("mismatch", "a seeded program draws differently in a second session")
    if s["exact"] is False and same and sum(o.size for o in want) >= 24:
        return Outcome("mismatch", "an unseeded program draws the same values in every session")
    return Outcome("ok", sig=tfcase.graph_sig(model), evals=len(runs) * len(names))


def run_group(cases):
    return [run_case(c) for c in cases]


# ------------------------------------------------------------------ relations
def within(lo, hi, k=0, closed=False, whole=False):
    def f(outs, want):
        a = outs[k].astype(np.float64)
        eps = 1e-6 * (abs(lo) + abs(hi))
        if whole and (a != np.round(a)).any():
            return "not whole numbers"
        if a.size and (a.min() < lo - (0 if whole else eps) or (a.max() >= hi if whole else a.max() > hi + eps)):
            return "values from %s to %s outside of [%s, %s)" % (a.min(), a.max(), lo, hi)
        if a.size >= 64:
            if np.unique(a).size < (2 if whole else a.size // 2):
                return "the draws repeat"
            sd = (hi - lo) / 12 ** .5
            mid = (lo + hi - 1) / 2 if whole else (lo + hi) / 2
            if abs(a.mean() - mid) > 8 * sd / a.size ** .5:
                return "mean %s instead of %s" % (a.mean(), mid)
            if not whole and not 0.6 * sd < a.std() < 1.5 * sd:
                return "deviation %s instead of %s" % (a.std(), sd)
            if whole and hi - lo <= 5 and set(np.unique(a)) != set(range(int(lo), int(hi))):
                return "draws only %s" % np.unique(a)
        return None
    return f


def normal(mean, sd, k=0):
    def f(outs, want):
        a = outs[k].astype(np.float64)
        if a.size >= 64:
            if np.unique(a).size < a.size // 2:
                return "the draws repeat"
            if abs(a.mean() - mean) > 8 * sd / a.size ** .5:
                return "mean %s instead of %s" % (a.mean(), mean)
            if not 0.6 * sd < a.std() < 1.5 * sd:
                return "deviation %s instead of %s" % (a.std(), sd)
        return None
    return f


def affine(i, j, m, c):
    """outs[j] == outs[i] * m + c"""
    def f(outs, want):
        e = outs[i].astype(np.float64) * m + c
        return None if np.allclose(outs[j], e, rtol=1e-3, atol=1e-3) else "output %d is not output %d * %s + %s" % (j, i, m, c)
    return f


def differ(i, j):
    def f(outs, want):
        return "outputs %d and %d draw the same values" % (i, j) if outs[i].size and (outs[i] == outs[j]).all() else None
    return f


def both(*fs):
    def f(outs, want):
        for q in fs:
            r = q(outs, want)
            if r:
                return r
        return None
    return f


def permuted(outs, want, k=0, src=None):
    return None


def shapes_of(tier):
    """shape source: (tag, inputs, feed, x -> shape tensor, static?)"""
    out = []
    for sh in ([], [1], [64], [8, 32], [2, 0, 3], [2, 3, 16]):
        out.append(("c" + shp(sh), [], [], lambda *a, sh=sh: tf.constant(sh, tf.int32)))
    for sh in ([64], [8, 32], [2, 0], []):
        x = np.zeros(sh, np.float32)
        out.append(("of" + shp(sh), [([None] * len(sh), "float32")], [x], lambda x: tf.shape(x)))
        out.append(("ofs" + shp(sh), [(sh, "float32")], [x], lambda x: tf.shape(x)))
    out.append(("of64", [([None, 3], "float32")], [np.zeros((30, 3), np.float32)], lambda x: tf.shape(x, out_type=tf.int64)))
    out.append(("comp", [([None, 3], "float32")], [np.zeros((30, 3), np.float32)], lambda x: tf.stack([tf.shape(x)[0], 2])))
    out.append(("compk", [([None, 3], "float32")], [np.zeros((30, 3), np.float32)], lambda x: tf.shape(x) * 2))
    out.append(("fed", [([2], "int32")], [np.array([8, 16], np.int32)], lambda s: s))
    out.append(("fedr", [([None], "int32")], [np.array([8, 16], np.int32)], lambda s: s))
    out.append(("fed64", [([2], "int64")], [np.array([8, 16], np.int64)], lambda s: s))
    return out


def cases(tier):
    s = S()
    opsets = (18, 13, 11, 9, 8, 7) if tier == "thorough" else (18, 12, 9, 8)
    for tag, ins, feed, sh in shapes_of(tier):
        for o in opsets:
            kw = dict(inputs=ins, feed=feed, opset=o)
            for dt in ("float32", "float64", "float16"):
                if dt != "float32" and o not in (18, 9):
                    continue
                for seed in (None, 3):
                    ex = seed is not None
                    z = dict(kw, exact_rerun=ex)
                    sd = dict(seed=seed) if ex else {}
                    s.add("runif/%s/%s/%s" % (tag, dt, seed), lambda *a, sh=sh, dt=dt, sd=sd: [R.RandomUniform(shape=sh(*a), dtype=dt, **sd)], within(0, 1), **z)
                    s.add("rnorm/%s/%s/%s" % (tag, dt, seed), lambda *a, sh=sh, dt=dt, sd=sd: [R.RandomStandardNormal(shape=sh(*a), dtype=dt, **sd)], normal(0, 1), **z)
                    for lo, hi in ((0, 1), (2, 5), (-3.5, -1), (-1, 1), (0, 10)):
                        if (lo, hi) != (2, 5) and (dt != "float32" or ex):
                            continue
                        s.add("uniform/%s_%s/%s/%s/%s" % (lo, hi, tag, dt, seed), lambda *a, sh=sh, dt=dt, lo=lo, hi=hi, sd=sd: [tf.random.uniform(sh(*a), lo, hi, dt, **sd)], within(lo, hi), **z)
                    for m, q in ((0, 1), (3, 2), (-5, 0.5), (0, 3), (2, 1)):
                        if (m, q) != (3, 2) and (dt != "float32" or ex):
                            continue
                        s.add("normal/%s_%s/%s/%s/%s" % (m, q, tag, dt, seed), lambda *a, sh=sh, dt=dt, m=m, q=q, sd=sd: [tf.random.normal(sh(*a), m, q, dt, **sd)], normal(m, q), **z)
                        s.add("normalv1/%s_%s/%s/%s/%s" % (m, q, tag, dt, seed), lambda *a, sh=sh, dt=dt, m=m, q=q, sd=sd: [v1.random_normal(sh(*a), m, q, dt, **sd) + tf.zeros([], dt)], normal(m, q), **z)
            for dt in ("int32", "int64"):
                for lo, hi in ((0, 5), (2, 4), (-7, 3), (0, 1000)):
                    s.add("rint/%s_%s/%s/%s" % (lo, hi, tag, dt), lambda *a, sh=sh, dt=dt, lo=lo, hi=hi: [R.RandomUniformInt(shape=sh(*a), minval=tf.constant(lo, dt), maxval=tf.constant(hi, dt))],
                          within(lo, hi, whole=True), **kw)
                    if tag in ("c64", "of8x32", "ofs64", "fed"):
                        # run-time limits
                        s.add("rintmax/%s_%s/%s/%s" % (lo, hi, tag, dt), lambda *a, sh=sh, dt=dt, lo=lo: [R.RandomUniformInt(shape=sh(*a[:-1]), minval=tf.constant(lo, dt), maxval=a[-1])],
                              within(lo, hi, whole=True), inputs=ins + [([], dt)], feed=feed + [np.array(hi, dt)], opset=o)
                        s.add("rintboth/%s_%s/%s/%s" % (lo, hi, tag, dt), lambda *a, sh=sh, dt=dt: [R.RandomUniformInt(shape=sh(*a[:-2]), minval=a[-2], maxval=a[-1])],
                              within(lo, hi, whole=True), inputs=ins + [([], dt), ([], dt)], feed=feed + [np.array(lo, dt), np.array(hi, dt)], opset=o)
                        s.add("rintmin/%s_%s/%s/%s" % (lo, hi, tag, dt), lambda *a, sh=sh, dt=dt, hi=hi: [R.RandomUniformInt(shape=sh(*a[:-1]), minval=a[-1], maxval=tf.constant(hi, dt))],
                              within(lo, hi, whole=True), inputs=ins + [([], dt)], feed=feed + [np.array(lo, dt)], opset=o)
    # ---- relations: what else reads the draw, and patterns that look like a scaled draw
    draws = {"u": lambda sh, **k: R.RandomUniform(shape=sh, dtype=tf.float32, **k), "n": lambda sh, **k: R.RandomStandardNormal(shape=sh, dtype=tf.float32, **k)}
    base = {"u": within(0, 1), "n": normal(0, 1)}
    for (dn, d), (tag, ins, feed, sh), o in itertools.product(draws.items(), [q for q in shapes_of(tier) if q[0] in ("c64", "c8x32", "of8x32", "fed")], opsets):
        kw = dict(inputs=ins, feed=feed, opset=o)
        for seed in ({}, {"seed": 5, "seed2": 9}):
            z = dict(kw, exact_rerun=bool(seed))
            st = "s" if seed else "-"
            for form in ("mul-add", "rmul-radd", "mul-radd", "subconst", "scaled-other", "sub", "div"):
                def expr(u, form=form):
                    if form == "mul-add":
                        return u * 3. + 1., 3, 1
                    if form == "rmul-radd":
                        return tf.constant(1.) + tf.constant(3.) * u, 3, 1
                    if form == "mul-radd":
                        return tf.constant(1.) + u * tf.constant(3.), 3, 1
                    if form == "subconst":
                        return u * (tf.constant(5.) - tf.constant(2.)) + tf.constant(2.), 3, 2
                    if form == "scaled-other":
                        return u * (tf.constant(5.) - tf.constant(2.)) + tf.constant(7.), 3, 7
                    if form == "sub":
                        return u * 3. - 1., 3, -1
                    return u / 2. + 4., .5, 4
                _, m, c = expr(tf.constant(1.))
                if dn == "u":
                    alone = within(c, c + m)
                else:
                    alone = normal(c, m)
                s.add("form/%s/%s/%s/%s" % (dn, form, tag, st), lambda *a, d=d, sh=sh, expr=expr, seed=seed: [expr(d(sh(*a), **seed))[0] * 1.], alone, **z)
                s.add("formout/%s/%s/%s/%s" % (dn, form, tag, st), lambda *a, d=d, sh=sh, expr=expr, seed=seed: [expr(d(sh(*a), **seed))[0]], alone, **z)

                def shared(*a, d=d, sh=sh, expr=expr, seed=seed):
                    u = d(sh(*a), **seed)
                    return [u, expr(u)[0]]
                s.add("shared/%s/%s/%s/%s" % (dn, form, tag, st), shared, both(base[dn], affine(0, 1, m, c)), **z)

                def mid(*a, d=d, sh=sh, expr=expr, seed=seed):
                    e = expr(d(sh(*a), **seed))[0]
                    return [tf.nn.relu(e), -tf.nn.relu(-e), e * 2.]
                s.add("fan/%s/%s/%s/%s" % (dn, form, tag, st), mid, lambda outs, want: None if np.allclose((outs[0] + outs[1]) * 2, outs[2], atol=1e-4) else "three views of one draw disagree", **z)

                def inner(*a, d=d, sh=sh, seed=seed):
                    u = d(sh(*a), **seed)
                    w = u * 3.
                    return [w, w + 1.]
                s.add("inner/%s/%s/%s" % (dn, tag, st), inner, affine(0, 1, 1, 1), **z)

                def twoforms(*a, d=d, sh=sh, seed=seed, expr=expr):
                    u = d(sh(*a), **seed)
                    return [u * 2. + 3., expr(u)[0]]
                s.add("twice/%s/%s/%s/%s" % (dn, form, tag, st), twoforms, affine(0, 1, m / 2., c - 1.5 * m), **z)
            # vector scale and offset
            if tag in ("c8x32", "of8x32"):
                for which in ("scale", "offset", "both", "bigoffset"):
                    vec = (np.arange(32) * .1 + 1).astype(np.float32)

                    def vecs(*a, d=d, sh=sh, which=which, vec=vec, seed=seed):
                        u = d(sh(*a), **seed)
                        k = tf.constant(vec) if which in ("scale", "both") else tf.constant(3.)
                        c = tf.constant(vec) if which in ("offset", "both") else tf.constant(np.ones([2, 1, 1], np.float32)) if which == "bigoffset" else tf.constant(1.)
                        return [u * k + c]

                    def vcheck(outs, want, which=which, vec=vec, dn=dn):
                        k = vec if which in ("scale", "both") else 3.
                        c = vec if which in ("offset", "both") else 1.
                        return base[dn]([((outs[0] - c) / k).astype(np.float32) * (1 if dn == "n" else .9999) ], None)
                    s.add("vec/%s/%s/%s/%s" % (dn, which, tag, st), vecs, vcheck, **z)
        # two draws
        for e1, e2 in itertools.product(("raw", "scaled", "int"), repeat=2):
            for seeds in ((None, None), (3, 4), (None, 4), ("g", "g")):
                def pair(*a, d=d, sh=sh, e1=e1, e2=e2, seeds=seeds):
                    if seeds[0] == "g":
                        v1.set_random_seed(7)
                    r = []
                    for e, sd in ((e1, seeds[0]), (e2, seeds[1])):
                        k = dict(seed=sd) if isinstance(sd, int) else {}
                        if e == "int":
                            r.append(tf.random.uniform(sh(*a), 0, 1000000, tf.int32, **k))
                        elif dn == "u":
                            r.append(tf.random.uniform(sh(*a), 0, 1 if e == "raw" else 4, **k))
                        else:
                            r.append(tf.random.normal(sh(*a), 0, 1 if e == "raw" else 4, **k))
                    return [r[0] + tf.zeros([], r[0].dtype), r[1] + tf.zeros([], r[1].dtype)]
                def pcheck(outs, want, e1=e1, e2=e2):
                    sc = {"raw": 1., "scaled": 4., "int": 1e6}
                    p, q = outs[0] / sc[e1], outs[1] / sc[e2]
                    return "the two operators draw the same values" if np.allclose(p, q, rtol=1e-3, atol=1e-5) else None
                s.add("pair/%s/%s-%s/%s_%s/%s" % (dn, e1, e2, seeds[0], seeds[1], tag), pair, pcheck, exact_rerun=seeds[0] is not None, **kw)
    # ---- shuffle: a permutation of the rows; multinomial: categories with weight
    for shape in ([8], [1], [0], [40], [30, 2], [5, 2, 2]):
        x = np.arange(int(np.prod(shape)), dtype=np.float32).reshape(shape)
        for dt in ("float32", "int32", "int64", "float64"):
            for q in (shape, [None] * len(shape)):
                for o in (18, 13, 11, 10, 9):
                    def perm(outs, want, x=x):
                        rows = sorted(r.tolist() for r in outs[0].reshape(x.shape[0], -1))
                        if rows != sorted(r.tolist() for r in x.reshape(x.shape[0], -1)):
                            return "not a permutation of the rows"
                        return None
                    for seed in (None, 4):
                        if shape == [0]:
                            continue
                        k = dict(seed=seed) if seed else {}
                        s.add("shuffle/%s/%s/%s/%s" % (shp(shape), shp(q), dt, seed), lambda x, k=k: [R.RandomShuffle(value=x, **k)], perm, [(q, dt)], [x.astype(dt)], o, exact_rerun=bool(seed))
    for o in opsets:
        for dt in ("int32", "int64"):
            for n in (1, 5, 64):
                for hot in ((0,), (2,), (0, 2), (0, 1, 2)):
                    lg = np.full((3, 3), -1e4, np.float32)
                    lg[:, list(hot)] = 0.5

                    def mcheck(outs, want, hot=hot, n=n):
                        if not set(np.unique(outs[0])) <= set(hot):
                            return "categories %s of weight zero" % (set(np.unique(outs[0])) - set(hot))
                        if n == 64 and set(np.unique(outs[0])) != set(hot):
                            return "categories %s never come" % (set(hot) - set(np.unique(outs[0])))
                        return None
                    for q in ([3, 3], [None, None]):
                        for seed in (None, 6):
                            k = dict(seed=seed) if seed else {}
                            s.add("multinomial/%s/%d/%s/%s/%s" % (dt, n, "".join(map(str, hot)), shp(q), seed), lambda x, dt=dt, n=n, k=k: [R.Multinomial(logits=x, num_samples=n, output_dtype=dt, **k)],
                                  mcheck, [(q, "float32")], [lg], o, exact_rerun=bool(seed) or len(hot) < 2 or (None if n < 64 else False))
    return s.out
