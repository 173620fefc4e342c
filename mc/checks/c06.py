"""C06: normalisation, softmax and losses, resize, image ops, non-max suppression, crop-and-resize."""
import itertools

import numpy as np
import tensorflow as tf

from mc import tfcase
from mc.tfcase import Suite, dyn, mixed, shp

tfcase.define(globals(), "C06")
R = tf.raw_ops
F = "float32"
v1 = tf.compat.v1


def pos(a):
    return np.abs(a) + np.float32(0.3)


def cases(tier):
    s = Suite()
    thorough = tier == "thorough"
    # ---- softmax family: every rank, every axis, opset boundary 13
    for shape in ([3], [2, 3], [2, 3, 4], [2, 2, 3, 2]):
        x = mixed(shape, F)
        for o in (18, 13, 12, 10, 8):
            for nm, f in (("softmax", R.Softmax), ("logsoftmax", R.LogSoftmax)):
                if len(shape) >= 1:
                    for q in (shape, dyn(shape)):
                        s.add("%s/%s/%s" % (nm, shp(shape), shp(q)), lambda x, f=f: f(logits=x), [(q, F)], [[x], [x * 20], [x * 0]], o)
            for a in range(-len(shape), len(shape)):
                s.add("softmaxax/%s/%d" % (shp(shape), a), lambda x, a=a: tf.nn.softmax(x, axis=a), [(dyn(shape), F)], [[x]], o)
                s.add("logsoftmaxax/%s/%d" % (shp(shape), a), lambda x, a=a: tf.nn.log_softmax(x, axis=a), [(shape, F)], [[x]], o)
    for n, c in ((1, 3), (2, 3), (3, 2)):
        lg = mixed([n, c], F)
        lab = np.eye(c, dtype=F)[np.arange(n) % c]
        soft = np.abs(mixed([n, c], F, 2))
        soft = soft / soft.sum(-1, keepdims=True)
        for o in (18, 12, 10):
            for nm, l in (("hot", lab), ("soft", soft)):
                for q in ([n, c], [None, c], [None, None]):
                    s.add("xent/%d_%d/%s/%s" % (n, c, nm, shp(q)), lambda l, x: R.SoftmaxCrossEntropyWithLogits(features=x, labels=l)[0], [(q, F)] * 2, [[l, lg]], o)
                    if o == 18:
                        s.add("xent2/%d_%d/%s/%s" % (n, c, nm, shp(q)), lambda l, x: tf.nn.softmax_cross_entropy_with_logits(l, x), [(q, F)] * 2, [[l, lg]], o)
            for dt in ("int32", "int64"):
                for ids in itertools.product(range(c), repeat=n):
                    if len(set(ids)) == 1 and n > 1 and ids[0]:
                        continue
                    for q in ([n, c], [None, c]):
                        s.add("sxent/%d_%d/%s/%s/%s" % (n, c, dt, "".join(map(str, ids)), shp(q)),
                              lambda l, x: R.SparseSoftmaxCrossEntropyWithLogits(features=x, labels=l)[0],
                              [(q[:1], dt), (q, F)], [[np.array(ids, dt), lg]], o)
    # ---- batch norm
    for fmt, sh in (("NHWC", [2, 3, 2, 3]), ("NCHW", [2, 3, 3, 2]), ("NHWC", [1, 1, 1, 3]), ("NHWC", [2, 0, 2, 3])):
        x = mixed(sh, F)
        g, b, m, v = mixed([3], F, 1), mixed([3], F, 2), mixed([3], F, 3), pos(mixed([3], F, 4))
        for eps in (1e-3, 0.1):
            for op in (R.FusedBatchNorm, R.FusedBatchNormV2, R.FusedBatchNormV3):
                def f(x, g, b, m, v, op=op, fmt=fmt, eps=eps):
                    kw = {} if op is R.FusedBatchNorm else {}
                    return op(x=x, scale=g, offset=b, mean=m, variance=v, epsilon=eps, data_format=fmt, is_training=False, **kw)[0]
                ref = None
                if fmt == "NCHW":
                    ref = lambda x, g, b, m, v, f=f, op=op, eps=eps: tf.transpose(op(x=tf.transpose(x, [0, 2, 3, 1]), scale=g, offset=b, mean=m, variance=v, epsilon=eps, is_training=False)[0], [0, 3, 1, 2])
                q = [None, None, None, 3] if fmt == "NHWC" else [None, 3, None, None]
                for o in (18, 14, 13, 10, 8):
                    for nm, qq in (("st", sh), ("dy", q)):
                        s.add("bn/%s/%s/%s/%g/%s" % (fmt, shp(sh), op.__name__, eps, nm), f, [(qq, F)] + [([3], F)] * 4, [[x, g, b, m, v]], o, ref=ref)
                        s.add("bnc/%s/%s/%s/%g/%s" % (fmt, shp(sh), op.__name__, eps, nm), lambda x, f=f, a=(g, b, m, v): f(x, *[tf.constant(t) for t in a]),
                              [(qq, F)], [[x]], o, ref=None if ref is None else (lambda x, r=ref, a=(g, b, m, v): r(x, *[tf.constant(t) for t in a])))
        if fmt == "NHWC":
            one = np.float32
            s.add("bn1val/%s" % shp(sh), lambda x, g, b, m, v: R.FusedBatchNormV3(x=x, scale=g[:3], offset=b, mean=m, variance=v, is_training=False)[0],
                  [(sh, F)] + [([3], F)] * 4, [[x, g, b, m * 0, v * 0 + 1]], 18)
    for fmt, sh in (("NHWC", [2, 3, 2, 3]), ("NHWC", [1, 2, 2, 3]), ("NHWC", [3, 1, 1, 3]), ("NCHW", [2, 3, 3, 2]), ("NDHWC", [2, 2, 1, 2, 3]), ("NHWC", [2, 2, 2, 1])):
        c = sh[1] if fmt == "NCHW" else sh[-1]
        g, b, m, v = mixed([c], F, 1), mixed([c], F, 2), mixed([c], F, 3), pos(mixed([c], F, 4))
        for dt, eps, op, train, mv, avg in itertools.product((F, "float16"), (1e-3, 0.25), (R.FusedBatchNorm, R.FusedBatchNormV2, R.FusedBatchNormV3), (True, False), ("given", "empty"), (1.0,)):
            if (op is R.FusedBatchNorm and dt != F) or (mv == "empty" and not train) or (fmt == "NDHWC" and op is not R.FusedBatchNormV3) or (not train and dt == F and fmt != "NDHWC"):
                continue

            def bn(x, g, b, m, v, op=op, fmt=fmt, eps=eps, train=train, mv=mv):
                if mv == "empty":
                    m = v = tf.constant([], tf.float32)
                return op(x=x, scale=g, offset=b, mean=m, variance=v, epsilon=eps, data_format=fmt, is_training=train)[0]
            ref = None
            if fmt == "NCHW":
                ref = lambda x, g, b, m, v, f=bn: tf.transpose(f(tf.transpose(x, [0, 2, 3, 1]), g, b, m, v, fmt="NHWC"), [0, 3, 1, 2])
            x = mixed(sh, F).astype(dt)
            tol = dict(tol=(1e-2, 2e-2)) if dt == "float16" else {}
            for q, qq in (("st", sh), ("dy", [None if d != c or j not in (1, len(sh) - 1) else d for j, d in enumerate(sh)])):
                for o in (18, 14, 12, 9) if tier == "thorough" else (18, 9):
                    s.add("bnt/%s/%s/%s/%s/%g/t%d/%s/%s" % (fmt, shp(sh), dt, op.__name__, eps, train, mv, q), bn, [(qq, dt)] + [([c], F)] * 4, [[x, g, b, m, v]], o, ref=ref, **tol)
                    if op is R.FusedBatchNormV3:
                        s.add("bntc/%s/%s/%s/%g/t%d/%s/%s" % (fmt, shp(sh), dt, eps, train, mv, q), lambda x, f=bn, a=(g, b, m, v): f(x, *[tf.constant(t) for t in a]), [(qq, dt)], [[x]], o,
                              ref=None if ref is None else (lambda x, f=ref, a=(g, b, m, v): f(x, *[tf.constant(t) for t in a])), **tol)
    for sh, train, which in itertools.product(([2, 3, 2, 3], [1, 2, 2, 3]), (False, True), ((0, 1), (0, 1, 2), (1,), (2,))):
        x, g, b, m, v = mixed(sh, F), mixed([3], F, 1), mixed([3], F, 2), mixed([3], F, 3), pos(mixed([3], F, 4))
        for o in (18,):
            s.add("bnout/%s/t%d/%s" % (shp(sh), train, "".join(map(str, which))), lambda x, g, b, m, v, train=train, which=which: [R.FusedBatchNormV3(x=x, scale=g, offset=b, mean=m, variance=v, is_training=train)[w] * 2. for w in which],
                  [(sh, F)] + [([3], F)] * 4, [[x, g, b, m, v]], o)
    x = mixed([2, 2, 2, 3], F)
    for nm, f in {
            "moments": lambda x: list(tf.nn.moments(x, [1, 2])),
            "moments0": lambda x: list(tf.nn.moments(x, [0], keepdims=True)),
            "batchnorm": lambda x: tf.nn.batch_normalization(x, *tf.nn.moments(x, [0, 1, 2]), 0.5, 2.0, 1e-3),
            "layernorm": lambda x: (x - tf.reduce_mean(x, -1, keepdims=True)) * tf.math.rsqrt(tf.reduce_mean(tf.math.squared_difference(x, tf.stop_gradient(tf.reduce_mean(x, -1, keepdims=True))), -1, keepdims=True) + 1e-3),
            "layernormconst": lambda x: (x - tf.reduce_mean(x, [3], True)) * tf.constant([1., 2., 3.]) * tf.math.rsqrt(tf.math.reduce_variance(x, [3], True) + 1e-2) + tf.constant([1., 0., -1.]),
            "instnorm": lambda x: tf.nn.batch_normalization(x, *tf.nn.moments(x, [1, 2], keepdims=True), tf.constant([1., 2., 3.]), tf.constant([1., .5, -1.]), 1e-3),
            "instnormdiv": lambda x: (x - tf.reduce_mean(x, [1, 2], True)) / tf.sqrt(tf.math.reduce_variance(x, [1, 2], True) + 1e-3),
            "l2norm": lambda x: tf.math.l2_normalize(x, -1), "l2norm1": lambda x: tf.math.l2_normalize(x, [1, 2]),
            "l2norm0": lambda x: tf.math.l2_normalize(x * 0, 1),
            "gelu": lambda x: tf.nn.gelu(x), "gelua": lambda x: tf.nn.gelu(x, approximate=True),
            "gelumanual": lambda x: x * 0.5 * (1.0 + tf.math.erf(x / 1.41421356)),
            "gelumanual2": lambda x: 0.5 * x * (1.0 + tf.tanh(0.7978845608 * (x + 0.044715 * tf.pow(x, 3)))),
            "gelutanhother": lambda x: 0.5 * x * (1.0 + tf.tanh(0.7 * (x + 0.05 * tf.pow(x, 3)))),
            "gelupow2": lambda x: 0.5 * x * (1.0 + tf.tanh(0.7978845608 * (x + 0.044715 * tf.pow(x, 2)))),
            "swish": lambda x: tf.nn.swish(x), "hardsigm": lambda x: tf.clip_by_value(0.2 * x + 0.5, 0., 1.), "hardswish": lambda x: x * tf.nn.relu6(x + 3.) / 6.,
            "leaky": lambda x: tf.maximum(x * 0.3, x), "leaky2": lambda x: tf.maximum(x, 0.3 * x), "leakymin": lambda x: tf.minimum(x, 0.3 * x), "leakyneg": lambda x: tf.maximum(x, -0.3 * x),
            "leakygt1": lambda x: tf.maximum(x, 1.5 * x), "leakyint": lambda x: tf.maximum(x, 0.0 * x),
            "dropout": lambda x: tf.nn.dropout(x, 0.) * 1., "selu": tf.nn.selu, "crelu": lambda x: tf.nn.crelu(x), "softsign": tf.nn.softsign,
            "lrelu": lambda x: tf.nn.leaky_relu(x, 0.1), "elu": tf.nn.elu, "relun": lambda x: tf.nn.relu(-x), "thresh": lambda x: tf.where(x > 0.5, x, tf.zeros_like(x)),
            "sigx": lambda x: tf.nn.sigmoid_cross_entropy_with_logits(labels=tf.cast(x > 0, tf.float32), logits=x),
            "zfrac": lambda x: tf.nn.zero_fraction(x), "lse": lambda x: tf.reduce_logsumexp(x, -1), "softmaxman": lambda x: tf.exp(x) / tf.reduce_sum(tf.exp(x), -1, True),
            "cossim": lambda x: -tf.reduce_sum(tf.math.l2_normalize(x, -1) * tf.math.l2_normalize(x + 1, -1), -1),
            }.items():
        for o in (18, 12, 10):
            for q in ([2, 2, 2, 3], [None, None, None, 3]):
                s.add("nn/%s/%s" % (nm, shp(q)), f, [(q, F)], [[x], [x * 3 - 1]], o)
    for r, a, b, be in itertools.product((1, 2, 5), (1.0, 0.3), (0.0, 2.0), (0.5, 0.75)):
        xx = mixed([2, 2, 2, 5], F)
        for o in (18, 10):
            s.add("lrn/%d/%g/%g/%g" % (r, a, b, be), lambda x, r=r, a=a, b=b, be=be: tf.nn.local_response_normalization(x, r, b + 1, a, be), [([None, 2, 2, 5], F)], [[xx]], o)
    # ---- resize
    for (h, w), (nh, nw), ac, o in itertools.product([(2, 3), (4, 4), (3, 1)], [(1, 1), (2, 2), (2, 3), (4, 6), (6, 9), (8, 8), (5, 3)], (False, True), (18, 10, 9)):
        if o == 18 or (nh, nw) in ((4, 6), (2, 3)):
            s.add("area/%dx%d/%dx%d/ac%d" % (h, w, nh, nw, ac), lambda x, n=(nh, nw), ac=ac: R.ResizeArea(images=x, size=np.array(n, np.int32), align_corners=ac), [([1, h, w, 2], F)], [[mixed([1, h, w, 2], F)]], o)
    for dt, (meth, op), (h, w), (nh, nw), ac, o in itertools.product(("int32", "uint8", "int8", "float16"), (("near", R.ResizeNearestNeighbor), ("bilin", R.ResizeBilinear)), [(2, 3), (4, 4)], [(2, 2), (4, 6), (3, 5)], (False, True), (18, 11)):
        x = np.abs(mixed([1, h, w, 2], "int32") % 100).astype(dt)
        for q, sh in (("st", [1, h, w, 2]), ("dy", [None, None, None, 2])):
            s.add("resizedt/%s/%s/%dx%d/%dx%d/ac%d/%s" % (dt, meth, h, w, nh, nw, ac, q), lambda x, op=op, n=(nh, nw), ac=ac: op(images=x, size=np.array(n, np.int32), align_corners=ac), [(sh, dt)], [[x]], o,
                  tol=(1e-2, 2e-2) if dt == "float16" else (1e-4, 1e-5))
    for (h, w), (nh, nw) in itertools.product([(2, 3), (4, 4), (3, 1)], [(1, 1), (2, 2), (3, 4), (4, 6), (6, 9), (8, 8), (5, 3)]):
        x = mixed([1, h, w, 2], F)
        for meth, op in (("near", R.ResizeNearestNeighbor), ("bilin", R.ResizeBilinear), ("cubic", R.ResizeBicubic)):
            for ac, hp in ((False, False), (True, False), (False, True)):
                for o in (18, 13, 11, 10):
                    if o == 10 and meth == "cubic":
                        continue
                    nm = "resize/%s/%dx%d/%dx%d/ac%dhp%d" % (meth, h, w, nh, nw, ac, hp)
                    f = lambda x, op=op, n=(nh, nw), ac=ac, hp=hp: op(images=x, size=np.array(n, np.int32), align_corners=ac, half_pixel_centers=hp)
                    # TensorFlow's cubic kernel reads its weights from a 1024-entry table
                    tol = (5e-3, 2e-2) if meth == "cubic" else (1e-4, 1e-5)
                    s.add(nm + "/st", f, [([1, h, w, 2], F)], [[x]], o, tol=tol)
                    if o in (18, 11):
                        s.add(nm + "/dy", f, [([None, None, None, 2], F)], [[x]], o, tol=tol)
                        if meth != "cubic":
                            g = lambda x, n, op=op, ac=ac, hp=hp: op(images=x, size=n, align_corners=ac, half_pixel_centers=hp)
                            s.add(nm + "/rt", g, [([None, None, None, 2], F), ([2], "int32")], [[x, np.array([nh, nw], np.int32)]], o)
    for k, f in enumerate([
            lambda x: v1.image.resize_bilinear(x, tf.shape(x)[1:3] * 2), lambda x: v1.image.resize_nearest_neighbor(x, tf.shape(x)[1:3] * 2),
            lambda x: tf.image.resize(x, [4, 6]), lambda x: tf.image.resize(x, [4, 6], method="nearest"),
            lambda x: tf.image.resize(x, [4, 6], method="bicubic"),
            lambda x: tf.keras.backend.resize_images(x, 2, 2, "channels_last", "nearest"),
            lambda x: tf.keras.backend.resize_images(x, 2, 3, "channels_last", "bilinear"),
            lambda x: v1.image.resize_area(x, [4, 6]), lambda x: v1.image.resize_area(x, [1, 1]),
            lambda x: tf.repeat(tf.repeat(x, 2, 1), 2, 2),
            lambda x: tf.image.flip_left_right(x), lambda x: tf.image.flip_up_down(x), lambda x: tf.image.rot90(x),
            lambda x: tf.image.central_crop(x, 0.5), lambda x: tf.image.pad_to_bounding_box(x, 1, 2, 5, 7),
            lambda x: tf.image.crop_to_bounding_box(x, 0, 1, 1, 2), lambda x: tf.image.resize_with_crop_or_pad(x, 3, 2),
            lambda x: tf.image.per_image_standardization(x),
            lambda x: tf.image.image_gradients(x), lambda x: tf.image.total_variation(x),
    ]):
        for q in ([1, 2, 3, 2], [None, 2, 3, 2], [None, None, None, 2]):
            s.add("image/%d/%s" % (k, shp(q)), f, [(q, F)], [[mixed([1, 2, 3, 2], F)]], 18)
            s.add("image/%d/%s" % (k, shp(q)), f, [(q, F)], [[mixed([1, 2, 3, 2], F)]], 11)
    rgb = np.abs(mixed([2, 2, 3, 3], F)) / 6
    for o in (18, 12, 11):
        for c in (0., 0.5, 1., 2.):
            s.add("contrast/%g" % c, lambda x, c=c: tf.image.adjust_contrast(x, c), [([2, 2, 3, 3], F)], [[rgb]], o)
            s.add("contrastdy/%g" % c, lambda x, c=c: tf.image.adjust_contrast(x, c), [([None, None, None, 3], F)], [[rgb]], o)
            s.add("saturation/%g" % c, lambda x, c=c: tf.image.adjust_saturation(x, c), [([2, 2, 3, 3], F)], [[rgb], [rgb[..., ::-1].copy()]], o)
            s.add("bright/%g" % c, lambda x, c=c: tf.image.adjust_brightness(x, c), [([2, 2, 3, 3], F)], [[rgb]], o)
            s.add("gamma/%g" % c, lambda x, c=c: tf.image.adjust_gamma(x, c), [([2, 2, 3, 3], F)], [[rgb]], o)
        for d in (-0.6, -0.25, 0., 0.1, 0.5, 0.9):
            s.add("hue/%g" % d, lambda x, d=d: R.AdjustHue(images=x, delta=d), [([2, 2, 3, 3], F)], [[rgb], [np.roll(rgb, 1, -1)]], o, tol=(1e-3, 1e-4))
        for nm, f in (("rgb2hsv", tf.image.rgb_to_hsv), ("hsv2rgb", tf.image.hsv_to_rgb), ("rgb2gray", tf.image.rgb_to_grayscale), ("rgb2yuv", tf.image.rgb_to_yuv)):
            s.add("color/" + nm, f, [([2, 2, 3, 3], F)], [[rgb]], o)
    # ---- non-max suppression: every box multiset of a small family
    boxes_all = [[0, 0, 2, 2], [0, 0, 2, 1.5], [1, 1, 3, 3], [2, 2, 0, 0], [5, 5, 6, 6]]
    sc_all = [.9, .3, .6, .6, .8]
    for n in (1, 2, 3, 4):
        for pick in itertools.combinations(range(5), n):
            b = np.array([boxes_all[i] for i in pick], F)
            sc = np.array([sc_all[i] + .01 * i for i in pick], F)
            for iou, st, mo in itertools.product((0.3, 0.5), (-1e9, 0.5), (1, 3)):
                nm = "%s/i%g/s%g/m%d" % ("".join(map(str, pick)), iou, 0 if st < 0 else st, mo)
                I = [([None, 4], F), ([None], F)]
                s.add("nms3/" + nm, lambda b, c, i=iou, t=st, m=mo: R.NonMaxSuppressionV3(boxes=b, scores=c, max_output_size=m, iou_threshold=i, score_threshold=t), I, [[b, sc]], 18)
                if st < 0:
                    s.add("nms2/" + nm, lambda b, c, i=iou, m=mo: R.NonMaxSuppressionV2(boxes=b, scores=c, max_output_size=m, iou_threshold=i), I, [[b, sc]], 18)
                for pad in (False, True):
                    s.add("nms4/%s/p%d" % (nm, pad), lambda b, c, i=iou, t=st, m=mo, p=pad: list(R.NonMaxSuppressionV4(boxes=b, scores=c, max_output_size=m, iou_threshold=i, score_threshold=t, pad_to_max_output_size=p)), I, [[b, sc]], 18)
                    s.add("nms5/%s/p%d" % (nm, pad), lambda b, c, i=iou, t=st, m=mo, p=pad: list(R.NonMaxSuppressionV5(boxes=b, scores=c, max_output_size=m, iou_threshold=i, score_threshold=t, soft_nms_sigma=0., pad_to_max_output_size=p)), I, [[b, sc]], 18)
                s.add("nms3rt/" + nm, lambda b, c, m, i, t: R.NonMaxSuppressionV3(boxes=b, scores=c, max_output_size=m, iou_threshold=i, score_threshold=t),
                      I + [([], "int32"), ([], F), ([], F)], [[b, sc, np.int32(mo), np.float32(iou), np.float32(st)]], 11)
    for q, cls, per, tot, pc in itertools.product((1, 2), (1, 2), (1, 2), (1, 3), (False, True)):
        b = np.array(boxes_all, F)[None, :, None, :] / 6
        b = np.concatenate([b] * q, 2)
        if q not in (1, cls):
            continue
        sc = np.stack([np.array(sc_all, F) + .01 * np.arange(5, dtype=F)] * cls, -1)[None]
        if cls == 2:
            sc[..., 1] = sc[..., 1][..., ::-1] - .05
        s.add("cnms/q%d/c%d/%d/%d/p%d" % (q, cls, per, tot, pc),
              lambda b, c, per=per, tot=tot, pc=pc: list(R.CombinedNonMaxSuppression(boxes=b, scores=c, max_output_size_per_class=per, max_total_size=tot, iou_threshold=.5, score_threshold=.35, pad_per_class=pc)),
              [(list(b.shape), F), (list(sc.shape), F)], [[b, sc]], 18)
    # ---- crop and resize
    img = mixed([2, 4, 5, 2], F)
    bx = np.array([[0, 0, 1, 1], [.25, .25, .75, .5], [1, 1, 0, 0], [.3, .1, .9, 1.2]], F)
    for n in (1, 2):
        for pick in itertools.permutations(range(4), n):
            for ind in itertools.product((0, 1), repeat=n):
                for meth in ("bilinear", "nearest"):
                    for cs in ((2, 2), (3, 1), (1, 1)):
                        for ev in (0., 7.):
                            if ev and 3 not in pick:
                                continue
                            if n == 2 and (cs != (2, 2) or ind == (0, 0)):
                                continue
                            for o in (18, 11):
                                s.add("crop/%s/%s/%s/%dx%d/e%d" % ("".join(map(str, pick)), "".join(map(str, ind)), meth, cs[0], cs[1], ev),
                                      lambda x, b, i, cs=cs, m=meth, ev=ev: R.CropAndResize(image=x, boxes=b, box_ind=i, crop_size=np.array(cs, np.int32), method=m, extrapolation_value=ev),
                                      [([None, 4, 5, 2], F), ([None, 4], F), ([None], "int32")], [[img, bx[list(pick)], np.array(ind, np.int32)]], o)
    # ---- CTC greedy decoder: every argmax path over 3 classes, 3 frames
    for path in itertools.product(range(3), repeat=3):
        lg = np.full([3, 1, 3], -2., F)
        for t, c in enumerate(path):
            lg[t, 0, c] = 1. + .1 * t
        for merge in (True, False):
            for sl in (3, 2):
                s.add("ctc/%s/m%d/l%d" % ("".join(map(str, path)), merge, sl),
                      lambda x, l, m=merge: list(R.CTCGreedyDecoder(inputs=x, sequence_length=l, merge_repeated=m)), [([None, None, 3], F), ([None], "int32")],
                      [[lg, np.array([sl], np.int32)]], 18)
    for perm in itertools.permutations([(0, 0, 1), (1, 1, 2), (2, 1, 1), (0, 2, 0)], 3):
        lg = np.full([3, 3, 3], -2., F)
        for bidx, p in enumerate(perm):
            for t, c in enumerate(p):
                lg[t, bidx, c] = 1. + .1 * t
        for sl in ([3, 3, 3], [1, 3, 2]):
            s.add("ctcb/%s/%s" % ("_".join("".join(map(str, p)) for p in perm), "".join(map(str, sl))),
                  lambda x, l: list(R.CTCGreedyDecoder(inputs=x, sequence_length=l, merge_repeated=True)), [([None, None, 3], F), ([None], "int32")], [[lg, np.array(sl, np.int32)]], 18)
    return s.out
