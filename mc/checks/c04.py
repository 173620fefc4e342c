"""C04: shape manipulation: reshape, transpose, concat, split, pad, tile, pack, space/batch/depth, diag, ragged, sparse."""
import itertools

import numpy as np
import tensorflow as tf

from mc import tfcase
from mc.tfcase import Suite, dyn, mixed, shp

tfcase.define(globals(), "C04")
R = tf.raw_ops
F = "float32"


def cases(tier):
    s = Suite()
    thorough = tier == "thorough"
    old = [13, 12, 10] if not thorough else [17, 15, 13, 12, 11, 10, 9]

    # --- reshape: every factorisation of the element count, one -1, run-time shape
    for shape in ([2, 3, 4], [6], [2, 0, 3], [1, 1], []):
        n = int(np.prod(shape)) if shape else 1
        x = mixed(shape, F)
        tgts = set()
        for r in range(0, 4):
            for t in itertools.product([1, 2, 3, 4, 6, 12, 0] if n else [0, 2, 3], repeat=r):
                if int(np.prod(t)) == n:
                    tgts.add(t)
                    if n:
                        for k in range(r):
                            tgts.add(t[:k] + (-1,) + t[k + 1:])
        for t in sorted(tgts):
            for dt in ([F, "int64", "bool"] if len(t) == 2 else [F]):
                xx = mixed(shape, dt)
                s.add("reshape/%s/%s/%s/dyn" % (shp(shape), dt, "_".join(map(str, t)) or "s"),
                      lambda x, t=t: tf.reshape(x, np.array(t, np.int32)), [(dyn(shape), dt)], [[xx]], 18)
            s.add("reshape/%s/%s/static" % (shp(shape), "_".join(map(str, t)) or "s"),
                  lambda x, t=t: tf.reshape(x, np.array(t, np.int64)), [(shape, F)], [[x]], 12)
            if len(t) >= 2:
                s.add("reshape/%s/%s/rt" % (shp(shape), "_".join(map(str, t))),
                      lambda x, t: tf.reshape(x, t), [(dyn(shape), F), ([len(t)], "int32")],
                      [[x, np.array(t, np.int32)]], 18)
    x = mixed([2, 3, 4], F)
    for k, f in enumerate([
            lambda x: tf.reshape(x, [tf.shape(x)[0], -1]),
            lambda x: tf.reshape(x, [-1, tf.shape(x)[2]]),
            lambda x: tf.reshape(x, tf.stack([tf.shape(x)[0] * tf.shape(x)[1], tf.shape(x)[2]])),
            lambda x: tf.reshape(x, tf.concat([tf.shape(x)[:1], [2, -1]], 0)),
            lambda x: tf.reshape(x, tf.reverse(tf.shape(x), [0])),
            lambda x: tf.reshape(tf.reshape(x, [-1, 12]), [tf.shape(x)[0], 3, 4]),
            lambda x: tf.reshape(x, [tf.size(x)]),
            lambda x: tf.reshape(x, tf.cast(tf.cast(tf.shape(x), tf.float32), tf.int32)),
            lambda x: tf.reshape(x, [tf.shape(x)[0], tf.shape(x)[1] // 3, 3, tf.shape(x)[2]]),
            lambda x: tf.reshape(x, tf.shape(tf.transpose(x, [2, 0, 1]))),
            lambda x: tf.reshape(x, [tf.shape(x)[-1], tf.shape(x)[-3], -1]),
            lambda x: tf.reshape(x, [tf.reduce_prod(tf.shape(x)[:2]), tf.shape(x)[2]]),
            lambda x: tf.reshape(x, tf.concat([tf.shape(x)[1:], tf.shape(x)[:1]], 0)),
            lambda x: tf.reshape(x, tf.concat([[1], tf.shape(x)], 0)),
            lambda x: tf.reshape(x, tf.gather(tf.shape(x), [2, 0, 1])),
            lambda x: tf.reshape(tf.expand_dims(x, 1), [-1, tf.shape(x)[1], tf.shape(x)[2]]),
            lambda x: tf.reshape(x, [-1] + [tf.shape(x)[i] for i in (1, 2)]),
            lambda x: tf.reshape(x, tf.stack([tf.shape(x)[0], tf.shape(x)[1] + tf.shape(x)[1], 2])),
            lambda x: tf.reshape(x, tf.stack([tf.maximum(tf.shape(x)[0], 1), 12])) if True else None,
    ]):
        for o in (18, 13, 12, 10):
            for nm, sh in (("dyn", [None] * 3), ("half", [None, 3, 4]), ("half2", [2, None, None]), ("static", [2, 3, 4])):
                s.add("reshapeshape/%d/%s" % (k, nm), f, [(sh, F)],
                      [[x]] if nm in ("static", "half2") else [[x], [mixed([2, 3, 4], F, 2)]], o)
    # shape arithmetic, several run-time extents
    for k, f in enumerate([
            lambda x: tf.shape(x), lambda x: tf.shape(x, out_type=tf.int64), lambda x: tf.size(x), lambda x: tf.rank(x),
            lambda x: R.Size(input=x, out_type=tf.int64), lambda x: tf.shape_n([x, x])[1] if hasattr(tf, "shape_n") else R.ShapeN(input=[x, x])[1],
            lambda x: tf.reshape(x, [-1, tf.shape(x)[1] * 2]) if False else tf.reshape(x, [tf.shape(x)[1], tf.shape(x)[0]]),
            lambda x: tf.zeros(tf.shape(x)), lambda x: tf.ones_like(x) * 2., lambda x: tf.fill(tf.shape(x), 7),
            lambda x: tf.zeros([tf.shape(x)[1], 2]), lambda x: tf.broadcast_to(x, tf.concat([[2], tf.shape(x)], 0)),
            lambda x: tf.tile(x, tf.shape(x)), lambda x: tf.range(tf.shape(x)[0]), lambda x: tf.range(tf.shape(x)[1], 0, -1),
            lambda x: tf.expand_dims(x, tf.rank(x) - 1) if False else tf.expand_dims(x, -1),
            lambda x: tf.reshape(tf.range(tf.size(x)), tf.shape(x)),
            lambda x: tf.zeros_like(x, dtype=tf.int32) + 1, lambda x: tf.ensure_shape(x, [None, 3]) if False else tf.ensure_shape(x, [None, None]),
    ]):
        for o in (18, 13, 12, 10):
            s.add("shapeop/%d" % k, f, [([None, None], F)], [[mixed([2, 3], F)], [mixed([1, 4], F)]], o)
            s.add("shapeop/%d/half" % k, f, [([None, 3], F)], [[mixed([2, 3], F)], [mixed([1, 3], F)]], o)
    # --- transpose
    for r in (1, 2, 3, 4, 5):
        shape = [2, 3, 4, 1, 2][:r]
        x = mixed(shape, F)
        for p in itertools.permutations(range(r)):
            if r == 5 and not thorough and hash(p) % 3:
                continue
            f = lambda x, p=p: tf.transpose(x, list(p))
            s.add("transpose/%s/dyn" % ("".join(map(str, p))), f, [(dyn(shape), F)], [[x]], 18)
            s.add("transpose/%s/static" % ("".join(map(str, p))), f, [(shape, F)], [[x]], 12)
            if r == 3:
                for q in itertools.permutations(range(r)):
                    s.add("transpose2/%s_%s" % ("".join(map(str, p)), "".join(map(str, q))),
                          lambda x, p=p, q=q: tf.transpose(tf.transpose(x, list(p)), list(q)), [(dyn(shape), F)], [[x]], 18)
                s.add("transposert/%s" % ("".join(map(str, p))), lambda x, p: tf.transpose(x, p),
                      [(dyn(shape), F), ([3], "int32")], [[x, np.array(p, np.int32)]], 18)
                s.add("transposeint/%s" % ("".join(map(str, p))), f, [(dyn(shape), "int32")], [[mixed(shape, "int32")]], 18)
        s.add("transposenoperm/%d" % r, lambda x: tf.transpose(x), [(dyn(shape), F)], [[x]], 18)
    # --- squeeze / expand_dims
    for shape in ([1, 3, 1, 2], [1, 1], [3, 1], [1], [1, 0, 1]):
        ones = [i for i, d in enumerate(shape) if d == 1]
        x = mixed(shape, F)
        for k in range(0, len(ones) + 1):
            for ax in itertools.combinations(ones, k):
                for neg in (0, 1):
                    a = [i - len(shape) if neg else i for i in ax]
                    f = lambda x, a=a: R.Squeeze(input=x, axis=a)
                    for o in (18, 12, 10):
                        for nm, sh in (("static", shape), ("dyn", dyn(shape))):
                            s.add("squeeze/%s/%s/%s" % (shp(shape), ",".join(map(str, a)) or "all", nm), f, [(sh, F)], [[x]], o)
    for shape in ([], [3], [2, 3], [2, 3, 4]):
        x = mixed(shape, F)
        for a in range(-len(shape) - 1, len(shape) + 1):
            for o in (18, 12, 10):
                s.add("expand/%s/%d" % (shp(shape), a), lambda x, a=a: tf.expand_dims(x, a), [(dyn(shape), F)], [[x]], o)
            s.add("expandint/%s/%d" % (shp(shape), a), lambda x, a=a: tf.expand_dims(x, tf.constant([a])), [(dyn(shape), "int64")],
                  [[mixed(shape, "int64")]], 18)
            s.add("expandrt/%s/%d" % (shp(shape), a), lambda x, a: tf.expand_dims(x, a), [(shape, F), ([], "int32")],
                  [[x, np.int32(a)]], 18)
    # --- concat / pack / unpack / split
    for shape in ([2], [2, 3], [2, 3, 2]):
        for n in (1, 2, 3):
            for a in range(-len(shape), len(shape)):
                ins = []
                for i in range(n):
                    q = list(shape)
                    q[a] = [2, 1, 3][i]
                    ins.append(mixed(q, F, i))
                f = lambda *xs, a=a: tf.concat(xs, a)
                s.add("concat/%s/n%d/a%d" % (shp(shape), n, a), f, [(dyn(shape), F)] * n, [ins], 18)
                s.add("concat/%s/n%d/a%d/static" % (shp(shape), n, a), f, [(list(i.shape), F) for i in ins], [ins], 10)
                s.add("concatv1/%s/n%d/a%d" % (shp(shape), n, a), lambda *xs, a=a: R.Concat(concat_dim=a % len(shape), values=list(xs)) if len(xs) > 1 else xs[0],
                      [(dyn(shape), F)] * n, [ins], 18)
                z = [i.copy() for i in ins]
                q = list(shape)
                q[a] = 0
                z[0] = np.zeros(q, F)
                s.add("concatempty/%s/n%d/a%d" % (shp(shape), n, a), f, [(dyn(shape), F)] * n, [z], 18)
                s.add("concatconstempty/%s/n%d/a%d" % (shp(shape), n, a),
                      lambda *xs, a=a, e=np.zeros(q, F): tf.concat([e] + list(xs), a), [(dyn(shape), F)] * n, [ins], 18)
                for dt in ("int32", "bool"):
                    if n == 2:
                        s.add("concat%s/%s/a%d" % (dt, shp(shape), a), f, [(dyn(shape), dt)] * n, [[i.astype(dt) for i in ins]], 18)
            for a in range(-len(shape) - 1, len(shape) + 1):
                ins = [mixed(shape, F, i) for i in range(n)]
                f = lambda *xs, a=a: tf.stack(xs, a)
                for o in (18, 12, 10):
                    s.add("pack/%s/n%d/a%d" % (shp(shape), n, a), f, [(dyn(shape), F)] * n, [ins], o)
        for a in range(-len(shape), len(shape)):
            x = mixed(shape, F)
            for o in (18, 12, 10):
                s.add("unpack/%s/a%d" % (shp(shape), a), lambda x, a=a: tf.unstack(x, axis=a), [(shape, F)], [[x]], o)
            q = list(dyn(shape))
            q[a] = shape[a]
            s.add("unpackdyn/%s/a%d" % (shp(shape), a), lambda x, a=a: tf.unstack(x, axis=a), [(q, F)], [[x]], 18)
    for n in (1, 2, 3):
        s.add("packscalar/n%d" % n, lambda *xs: tf.stack(xs), [([], F)] * n, [[np.float32(i) for i in range(n)]], 18)
        s.add("packscalarint/n%d" % n, lambda *xs: tf.stack(xs + (5,)), [([], "int32")] * n, [[np.int32(i) for i in range(n)]], 12)
    for shape, a, num in itertools.product(([4], [4, 6], [2, 4, 6]), (-1, 0, 1, 2, -2), (1, 2, 3, 4)):
        if not -len(shape) <= a < len(shape) or shape[a] % num:
            continue
        x = mixed(shape, F)
        for o in (18, 13, 12, 10):
            f = lambda x, a=a, num=num: tf.split(x, num, axis=a)
            s.add("split/%s/a%d/n%d" % (shp(shape), a, num), f, [(shape, F)], [[x]], o)
            s.add("split/%s/a%d/n%d/dyn" % (shp(shape), a, num), f, [(dyn(shape), F)], [[x]], o)
    for shape, a in itertools.product(([5], [2, 5], [5, 2, 3]), (-1, 0, 1, -3)):
        if not -len(shape) <= a < len(shape):
            continue
        d = shape[a]
        x = mixed(shape, F)
        opts = {(d,), (-1,)}
        for i in range(0, d + 1):
            opts |= {(i, d - i), (i, -1), (-1, i)}
            for j in range(0, d - i + 1):
                opts |= {(i, j, d - i - j), (i, -1, j)}
        for sz in sorted(opts):
            for o in ((18, 12) if thorough or len(sz) < 3 else (18,)):
                s.add("splitv/%s/a%d/%s" % (shp(shape), a, "_".join(map(str, sz))),
                      lambda x, a=a, sz=sz: tf.split(x, list(sz), axis=a), [(dyn(shape), F)], [[x]], o)
            if len(sz) == 2 and -1 not in sz:
                s.add("splitvrt/%s/a%d/%s" % (shp(shape), a, "_".join(map(str, sz))),
                      lambda x, z, a=a: tf.split(x, z, axis=a, num=2), [(dyn(shape), F), ([2], "int32")],
                      [[x, np.array(sz, np.int32)]], 18)
    # --- pad
    for shape in ([3], [3, 4], [2, 3, 2]):
        r = len(shape)
        x = mixed(shape, F)
        flat = [0, 1, 2]
        allp = list(itertools.product(flat, repeat=2 * r)) if r <= 2 else [
            p for p in itertools.product(flat, repeat=6) if sum(v > 0 for v in p) <= 2]
        for p in allp:
            pads = np.array(p, np.int32).reshape(r, 2)
            nm = "%s/%s" % (shp(shape), "".join(map(str, p)))
            s.add("pad/" + nm, lambda x, q=pads: tf.pad(x, q), [(dyn(shape), F)], [[x]], 18)
            if sum(p) <= 3 or r == 1:
                for o in (13, 10):
                    s.add("pad/" + nm, lambda x, q=pads: tf.pad(x, q), [(dyn(shape), F)], [[x]], o)
                s.add("padv/" + nm, lambda x, q=pads: tf.pad(x, q, constant_values=2.5), [(dyn(shape), F)], [[x]], 18)
                s.add("padv/" + nm, lambda x, q=pads: tf.pad(x, q, constant_values=2.5), [(dyn(shape), F)], [[x]], 10)
                s.add("padvrt/" + nm, lambda x, v, q=pads: tf.pad(x, q, constant_values=v), [(dyn(shape), F), ([], F)], [[x, np.float32(-1.5)]], 18)
                s.add("padrt/" + nm, lambda x, q: tf.pad(x, q), [(dyn(shape), F), ([r, 2], "int32")], [[x, pads]], 18)
                s.add("padint/" + nm, lambda x, q=pads: tf.pad(x, q, constant_values=-3), [(dyn(shape), "int32")], [[x.astype("int32")]], 18)
                s.add("padint64/" + nm, lambda x, q=pads: tf.pad(x, q), [(dyn(shape), "int64")], [[x.astype("int64")]], 13)
                s.add("padbool/" + nm, lambda x, q=pads: tf.pad(x, q), [(dyn(shape), "bool")], [[x > 0]], 18)
            for mode in ("REFLECT", "SYMMETRIC"):
                lim = [d - 1 if mode == "REFLECT" else d for d in shape]
                if any(pads[i].max() > lim[i] for i in range(r)):
                    continue
                if r == 3 and sum(p) > 2:
                    continue
                f = lambda x, q=pads, m=mode: tf.pad(x, q, mode=m)
                s.add("mirror/%s/" % mode + nm, f, [(shape, F)], [[x]], 18)
                s.add("mirror/%s/" % mode + nm + "/dyn", f, [(dyn(shape), F)], [[x]], 18)
                if sum(p) <= 3:
                    s.add("mirror/%s/" % mode + nm, f, [(shape, F)], [[x]], 10)
    # --- tile / broadcast / fill / range
    for shape in ([3], [2, 3], [2, 1, 2]):
        x = mixed(shape, F)
        for t in itertools.product((0, 1, 2, 3), repeat=len(shape)):
            if len(shape) == 3 and 0 in t:
                continue
            s.add("tile/%s/%s" % (shp(shape), "".join(map(str, t))), lambda x, t=t: tf.tile(x, list(t)), [(dyn(shape), F)], [[x]], 18)
            if sum(t) < 5:
                s.add("tilert/%s/%s" % (shp(shape), "".join(map(str, t))), lambda x, t: tf.tile(x, t),
                      [(dyn(shape), F), ([len(t)], "int32")], [[x, np.array(t, np.int32)]], 12)
    for a in ([], [1], [3], [1, 3], [2, 1], [2, 3], [2, 1, 3]):
        for b in ([3], [2, 3], [2, 2, 3], [2, 3, 3], [1, 2, 3], [2, 0, 3]):
            try:
                np.broadcast_to(np.zeros(a), b)
            except ValueError:
                continue
            for dt in (F, "int32", "bool"):
                x = mixed(a, dt)
                s.add("bcast/%s/%s/%s" % (shp(a), shp(b), dt), lambda x, b=b: tf.broadcast_to(x, b), [(dyn(a), dt)], [[x]], 18)
            s.add("bcastrt/%s/%s" % (shp(a), shp(b)), lambda x, b: tf.broadcast_to(x, b), [(dyn(a), F), ([len(b)], "int32")],
                  [[mixed(a, F), np.array(b, np.int32)]], 12)
    for dims in ([], [2], [2, 3], [0, 2], [1, 2, 2]):
        for dt, v in ((F, 1.5), ("int32", -2), ("int64", 3), ("bool", True), ("float64", 0.5)):
            for o in (18, 12, 10, 8):
                s.add("fillc/%s/%s" % (shp(dims), dt), lambda x, d=dims, v=v, dt=dt: [tf.fill(d, tf.constant(v, dt)), x], [([1], F)], [[np.ones(1, F)]], o)
                s.add("fillrt/%s/%s" % (shp(dims), dt), lambda d, v=v, dt=dt: tf.fill(d, tf.constant(v, dt)), [([len(dims)], "int32")],
                      [[np.array(dims, np.int32)]], o)
                s.add("fillrtv/%s/%s" % (shp(dims), dt), lambda d, v: tf.fill(d, v), [([len(dims)], "int32"), ([], dt)],
                      [[np.array(dims, np.int32), np.array(v, dt)]], o)
                s.add("fillcv/%s/%s" % (shp(dims), dt), lambda v, d=dims: tf.fill(d, v), [([], dt)], [[np.array(v, dt)]], o)
    for st, lim, de in itertools.product((0, 2, 5, -3), (0, 3, 6, -4), (1, 2, -1, -3)):
        for dt in ("int32", F, "int64"):
            for o in (18, 10):
                if o == 10 and dt != "int32":
                    continue
                if (lim - st) * de < 0:
                    continue
                s.add("range/%d_%d_%d/%s" % (st, lim, de, dt), lambda a, b, c: tf.range(a, b, c), [([], dt)] * 3,
                      [[np.array(v, dt) for v in (st, lim, de)]], o)
                s.add("rangec/%d_%d_%d/%s" % (st, lim, de, dt), lambda a, d=(st, lim, de), dt=dt: tf.range(a, tf.constant(d[1], dt), tf.constant(d[2], dt)),
                      [([], dt)], [[np.array(st, dt)]], o)
    for st, sp, num in itertools.product((0., -1.5), (3., -2.), (1, 2, 5)):
        s.add("linspace/%g_%g_%d" % (st, sp, num), lambda a, b, n=num: tf.linspace(a, b, n), [([], F)] * 2, [[np.float32(st), np.float32(sp)]], 18)
    # --- space/depth/batch
    for bs in (2, 3):
        for fmt in ("NHWC", "NCHW"):
            for n, h, w, c in ((1, 1, 2, 1), (2, 2, 1, 2), (1, 2, 2, 3)):
                sh = [n, h * bs, w * bs, c] if fmt == "NHWC" else [n, c, h * bs, w * bs]
                x = mixed(sh, F)
                for o in (18, 10):
                    for nm, q in (("static", sh), ("dyn", dyn(sh))):
                        if fmt == "NHWC":
                            s.add("s2d/%d/%s/%s/%s" % (bs, fmt, shp(sh), nm), lambda x, b=bs, f=fmt: tf.nn.space_to_depth(x, b, data_format=f), [(q, F)], [[x]], o)
                sh2 = [n, h, w, c * bs * bs] if fmt == "NHWC" else [n, c * bs * bs, h, w]
                x2 = mixed(sh2, F)
                for o in (18, 10):
                    for nm, q in (("static", sh2), ("dyn", dyn(sh2))):
                        if fmt == "NHWC":
                            s.add("d2s/%d/%s/%s/%s" % (bs, fmt, shp(sh2), nm), lambda x, b=bs, f=fmt: tf.nn.depth_to_space(x, b, data_format=f), [(q, F)], [[x2]], o)
    for bh, bw in ((1, 2), (2, 2), (2, 1), (3, 2)):
        for oh, ow, c in ((2, 2, 1), (1, 3, 2)):
            for crops in ([[0, 0], [0, 0]], [[1, 0], [0, 1]], [[0, 1], [1, 0]], [[0, 0], [1, 1]]):
                hh, ww = oh * bh, ow * bw
                if sum(crops[0]) >= hh or sum(crops[1]) >= ww:
                    continue
                sh = [bh * bw * 2, oh, ow, c]
                x = mixed(sh, F)
                f = lambda x, b=(bh, bw), cr=crops: tf.batch_to_space(x, list(b), cr)
                nm = "%dx%d/%s/%s" % (bh, bw, shp(sh), "".join(str(v) for q in crops for v in q))
                for o in (18, 12, 10):
                    s.add("b2s/" + nm, f, [(sh, F)], [[x]], o)
                s.add("b2s/" + nm + "/dyn", f, [([None, None, None, c], F)], [[x]], 18)
                s.add("b2srt/" + nm, lambda x, cr, b=(bh, bw): tf.batch_to_space(x, list(b), cr), [(sh, F), ([2, 2], "int32")],
                      [[x, np.array(crops, np.int32)]], 18)
                # padded so that the padded size divides
                ph, pw = hh - sum(crops[0]), ww - sum(crops[1])
                sh2 = [2, ph, pw, c]
                x2 = mixed(sh2, F)
                g = lambda x, b=(bh, bw), cr=crops: tf.space_to_batch(x, list(b), cr)
                nm = "%dx%d/%s/%s" % (bh, bw, shp(sh2), "".join(str(v) for q in crops for v in q))
                for o in (18, 12, 10):
                    s.add("s2b/" + nm, g, [(sh2, F)], [[x2]], o)
                s.add("s2b/" + nm + "/dyn", g, [([None, None, None, c], F)], [[x2]], 18)
    for b in (2, 3):
        for sh in ([2 * b, 2], [2 * b, 3, 2], [b, 2, 2, 2, 2]):
            nd = 1
            x = mixed(sh, F)
            for cr in ([[0, 0]], [[1, 0]], [[0, 1]]):
                s.add("b2s1/%d/%s/%d%d" % (b, shp(sh), cr[0][0], cr[0][1]), lambda x, b=b, cr=cr: tf.batch_to_space(x, [b], cr), [(sh, F)], [[x]], 18)
                y = mixed([2, 2 * b - sum(cr[0])] + sh[2:], F)
                s.add("s2b1/%d/%s/%d%d" % (b, shp(sh), cr[0][0], cr[0][1]), lambda x, b=b, cr=cr: tf.space_to_batch(x, [b], cr), [(list(y.shape), F)], [[y]], 18)
    for o in (18, 12):
        x = mixed([8, 2, 1, 2, 1], F)
        s.add("b2s3/222", lambda x: tf.batch_to_space(x, [2, 2, 2], [[0, 1], [0, 0], [1, 0]]), [([8, 2, 1, 2, 1], F)], [[x]], o)
        y = mixed([1, 4, 2, 4, 1], F)
        s.add("s2b3/222", lambda x: tf.space_to_batch(x, [2, 2, 2], [[0, 0], [1, 1], [0, 0]]), [([1, 4, 2, 4, 1], F)], [[y]], o)
    # --- matrix diag / band / set_diag
    for sh in ([3, 3], [2, 4], [4, 2], [2, 3, 3], [2, 3, 4]):
        x = mixed(sh, F)
        m, n = sh[-2:]
        for lo, hi in itertools.product((-1, 0, 1, 2), repeat=2):
            if lo >= m or hi >= n:
                continue
            for o in (18, 12, 10):
                s.add("band/%s/%d_%d" % (shp(sh), lo, hi), lambda x, a=lo, b=hi: tf.linalg.band_part(x, a, b), [(sh, F)], [[x]], o)
            s.add("band/%s/%d_%d/dyn" % (shp(sh), lo, hi), lambda x, a=lo, b=hi: tf.linalg.band_part(x, a, b), [(dyn(sh), F)], [[x]], 18)
            s.add("bandrt/%s/%d_%d" % (shp(sh), lo, hi), lambda x, a, b: tf.linalg.band_part(x, a, b), [(sh, F), ([], "int64"), ([], "int64")],
                  [[x, np.int64(lo), np.int64(hi)]], 18)
        s.add("diagpart/%s" % shp(sh), lambda x: R.MatrixDiagPart(input=x), [(sh, F)], [[x]], 18)
        s.add("diagpart/%s" % shp(sh), lambda x: R.MatrixDiagPart(input=x), [(sh, F)], [[x]], 12)
        for k0, k1 in itertools.product(range(-2, 3), repeat=2):
            if k0 > k1 or not (-m < k0 and k1 < n):
                continue
            for al in ("LEFT_RIGHT", "RIGHT_LEFT", "LEFT_LEFT", "RIGHT_RIGHT"):
                s.add("diagpart3/%s/%d_%d/%s" % (shp(sh), k0, k1, al),
                      lambda x, k=(k0, k1), al=al: R.MatrixDiagPartV3(input=x, k=list(k) if k[0] != k[1] else k[0], padding_value=9., align=al),
                      [(sh, F)], [[x]], 18)
            s.add("diagpart3/%s/%d_%d/dyn" % (shp(sh), k0, k1),
                  lambda x, k=(k0, k1): R.MatrixDiagPartV3(input=x, k=list(k) if k[0] != k[1] else k[0], padding_value=9., align="RIGHT_LEFT"),
                  [(dyn(sh), F)], [[x]], 18)
            s.add("diagpart2/%s/%d_%d" % (shp(sh), k0, k1),
                  lambda x, k=(k0, k1): R.MatrixDiagPartV2(input=x, k=list(k) if k[0] != k[1] else k[0], padding_value=9.), [(sh, F)], [[x]], 12)
    for dsh in ([2], [3], [2, 3], [2, 2, 2]):
        d = mixed(dsh, F)
        s.add("diag1/%s" % shp(dsh), lambda d: R.MatrixDiag(diagonal=d), [(dsh, F)], [[d]], 18)
        s.add("diag1/%s" % shp(dsh), lambda d: R.MatrixDiag(diagonal=d), [(dsh, F)], [[d]], 12)
        for k in (-2, -1, 0, 1, 2):
            for rows, cols in ((-1, -1), (dsh[-1] + abs(k), dsh[-1] + abs(k)), (dsh[-1] + abs(k) + 1, -1), (-1, dsh[-1] + abs(k) + 1)):
                for pv in (0., 7.):
                    s.add("diag3/%s/k%d/%d_%d/p%d" % (shp(dsh), k, rows, cols, pv),
                          lambda d, k=k, r=rows, c=cols, p=pv: R.MatrixDiagV3(diagonal=d, k=k, num_rows=r, num_cols=c, padding_value=p), [(dsh, F)], [[d]], 18)
    for (k0, k1), dsh in (((-1, 0), [2, 3]), ((0, 1), [2, 3]), ((-1, 1), [3, 3]), ((-1, 1), [2, 3, 3])):
        d = mixed(dsh, F)
        for al in ("LEFT_RIGHT", "RIGHT_LEFT", "LEFT_LEFT", "RIGHT_RIGHT"):
            for rows, cols in ((-1, -1), (3, 3), (4, 3), (3, 4)):
                s.add("diag3b/%d_%d/%s/%s/%d_%d" % (k0, k1, shp(dsh), al, rows, cols),
                      lambda d, k=(k0, k1), al=al, r=rows, c=cols: R.MatrixDiagV3(diagonal=d, k=list(k), num_rows=r, num_cols=c, padding_value=5., align=al),
                      [(dsh, F)], [[d]], 18)
    for sh in ([3, 3], [2, 4], [4, 2], [2, 3, 3]):
        m, n = sh[-2:]
        x = mixed(sh, F)
        for k in (-1, 0, 1):
            ln = min(m + min(k, 0), n - max(k, 0))
            d = mixed(sh[:-2] + [ln], F, 4)
            s.add("setdiag/%s/k%d" % (shp(sh), k), lambda x, d, k=k: R.MatrixSetDiagV3(input=x, diagonal=d, k=k), [(sh, F), (list(d.shape), F)], [[x, d]], 18)
            s.add("setdiag/%s/k%d/dyn" % (shp(sh), k), lambda x, d, k=k: R.MatrixSetDiagV3(input=x, diagonal=d, k=k), [(dyn(sh), F), (dyn(d.shape), F)], [[x, d]], 18)
        nm = min(m, n)
        for k0, k1 in ((-1, 0), (0, 1), (-1, 1)):
            ml = min(m + min(k1, 0), n - max(k0, 0))
            d = mixed(sh[:-2] + [k1 - k0 + 1, ml], F, 4)
            for al in ("LEFT_RIGHT", "RIGHT_LEFT"):
                s.add("setdiagb/%s/%d_%d/%s" % (shp(sh), k0, k1, al), lambda x, d, k=(k0, k1), al=al: R.MatrixSetDiagV3(input=x, diagonal=d, k=list(k), align=al),
                      [(sh, F), (list(d.shape), F)], [[x, d]], 18)
    # --- sparse / ragged
    dense = (3, 4)
    for idx in ([[0, 0]], [[0, 1], [2, 3]], [[1, 0], [1, 2], [2, 0]], []):
        ind = np.array(idx, np.int64).reshape(-1, 2)
        val = mixed([len(idx)], F, 1)
        s.add("sp2dense/%d" % len(idx), lambda i, v: R.SparseToDense(sparse_indices=i, output_shape=[3, 4], sparse_values=v, default_value=0.),
              [([None, 2], "int64"), ([None], F)], [[ind, val]], 18)
        s.add("sp2densed/%d" % len(idx), lambda i, v, d: R.SparseToDense(sparse_indices=i, output_shape=[3, 4], sparse_values=v, default_value=d),
              [([None, 2], "int64"), ([None], F), ([], F)], [[ind, val, np.float32(-4)]], 18)
        s.add("sp2dense32/%d" % len(idx), lambda i, v, sh: R.SparseToDense(sparse_indices=i, output_shape=sh, sparse_values=v, default_value=2),
              [([None, 2], "int32"), ([None], "int32"), ([2], "int32")], [[ind.astype("int32"), val.astype("int32"), np.array([3, 5], np.int32)]], 18)
        for ns in ([12], [4, 3], [2, 6], [-1, 2], [2, 2, 3], [3, -1]):
            s.add("spreshape/%d/%s" % (len(idx), shp(ns)), lambda i, ns=ns: list(R.SparseReshape(input_indices=i, input_shape=np.array(dense, np.int64), new_shape=np.array(ns, np.int64))),
                  [([None, 2], "int64")], [[ind]], 18)
        s.add("spfill/%d" % len(idx), lambda i, v: list(R.SparseFillEmptyRows(indices=i, values=v, dense_shape=np.array([3, 4], np.int64), default_value=9.)),
              [([None, 2], "int64"), ([None], F)], [[ind, val]], 18)
    for lens in itertools.product((0, 1, 2, 3), repeat=3):
        tot = sum(lens)
        sp = np.concatenate([[0], np.cumsum(lens)]).astype(np.int64)
        v = mixed([tot], F)
        nm = "".join(map(str, lens))
        s.add("ragged2t/" + nm, lambda v, p: R.RaggedTensorToTensor(shape=[-1, -1], values=v, default_value=-9., row_partition_tensors=[p], row_partition_types=["ROW_SPLITS"]),
              [([None], F), ([None], "int64")], [[v, sp]], 18)
        for L in (1, 2, 4):
            s.add("ragged2tl%d/" % L + nm, lambda v, p, L=L: R.RaggedTensorToTensor(shape=[-1, L], values=v, default_value=-9., row_partition_tensors=[p], row_partition_types=["ROW_SPLITS"]),
                  [([None], F), ([None], "int64")], [[v, sp]], 18)
        s.add("ragged2sp/" + nm, lambda v, p: list(R.RaggedTensorToSparse(rt_nested_splits=[p], rt_dense_values=v)),
              [([None], F), ([None], "int64")], [[v, sp]], 18)
        s.add("raggedrange/" + nm, lambda b, l: list(R.RaggedRange(starts=b, limits=l, deltas=tf.ones_like(b))), [([None], "int32")] * 2,
              [[np.array([0, 1, 2], np.int32), np.array([0, 1, 2], np.int32) + np.array(lens, np.int32)]], 18)
        s.add("raggedgather/" + nm, lambda p, v, i: list(R.RaggedGather(params_nested_splits=[p], params_dense_values=v, indices=i, OUTPUT_RAGGED_RANK=1)),
              [([None], "int64"), ([None], F), ([None], "int64")], [[sp, v, np.array([2, 0], np.int64)], [sp, v, np.array([1, 1, 0], np.int64)]], 18)
    for st, li, de in itertools.product((0, 3, -2), (4, 0, 7), (1, 2, 3, -1)):
        s.add("raggedranged/%d_%d_%d" % (st, li, de), lambda b, l, d: list(R.RaggedRange(starts=b, limits=l, deltas=d)), [([None], "int32")] * 3,
              [[np.array([st, 0], np.int32), np.array([li, 2], np.int32), np.array([de, 1], np.int32)]], 18)
    for dt in ("int32", "int64"):
        for a, b in itertools.product(([[1, 2, 3]], [[1, 1, 4], [2, 5, 2]], [[7, 8, 9], [1, 2, 3]]), ([[2, 3]], [[4, 4], [2, 9]])):
            if len(a) != len(b):
                continue
            for op in ("a-b", "intersection", "union", "b-a"):
                s.add("setop/%s/%s/%s/%s" % (dt, op, "".join(str(v) for q in a for v in q), "".join(str(v) for q in b for v in q)),
                      lambda x, y, op=op: list(R.DenseToDenseSetOperation(set1=x, set2=y, set_operation=op)), [([None, 3], dt), ([None, 2], dt)],
                      [[np.array(a, dt), np.array(b, dt)]], 18)
    return s.out
