"""C05: convolution, transposed convolution, depthwise convolution, pooling, bias, patches."""
import itertools

import numpy as np
import tensorflow as tf

from mc import tfcase
from mc.tfcase import Suite, mixed, shp

tfcase.define(globals(), "C05", assumptions=["NCHW programs are compared with the NHWC TensorFlow kernel on transposed data"])
R = tf.raw_ops
F = "float32"
PERM = {1: ([0, 2, 1], [0, 2, 1]), 2: ([0, 2, 3, 1], [0, 3, 1, 2]), 3: ([0, 2, 3, 4, 1], [0, 4, 1, 2, 3])}


def win(v, fmt):
    v = list(v)
    return [1] + v + [1] if fmt.endswith("C") else [1, 1] + v


def to_last(x, n):
    return tf.transpose(x, PERM[n][0])


def to_first(x, n):
    return tf.transpose(x, PERM[n][1])


def shape_for(n, hw, c, fmt):
    return [n] + list(hw) + [c] if fmt.endswith("C") else [n, c] + list(hw)


def variants(shape, fmt):
    """static, unknown batch, unknown everything but channels"""
    yield "st", list(shape)
    yield "nb", [None] + list(shape[1:])
    dynsh = [None] * len(shape)
    dynsh[-1 if fmt.endswith("C") else 1] = shape[-1 if fmt.endswith("C") else 1]
    yield "dy", dynsh


def cases(tier):
    s = Suite()
    thorough = tier == "thorough"
    # ---------------- Conv2D
    sizes = [(5, 5), (4, 6), (7, 3)] if thorough else [(5, 5), (4, 6)]
    for (h, w), (kh, kw), st, dil, pad in itertools.product(
            sizes, [(1, 1), (2, 2), (3, 3), (3, 2), (1, 3)], [(1, 1), (2, 2), (1, 2), (3, 2)], [(1, 1), (2, 2), (1, 2)],
            ["SAME", "VALID", (0, 0, 0, 0), (1, 0, 2, 1), (1, 1, 1, 1), (0, 2, 1, 0)]):
        if dil != (1, 1) and st != (1, 1):
            continue
        if not isinstance(pad, str) and (kh, kw) in ((1, 1), (1, 3)):
            continue
        for fmt in ("NHWC", "NCHW"):
            ci, co = 2, 3
            sh = shape_for(2, (h, w), ci, fmt)
            x = mixed(sh, F)
            k = mixed([kh, kw, ci, co], F, 3)

            def mk(f, k=k, st=st, dil=dil, pad=pad, const=True):
                p = pad
                if not isinstance(pad, str):
                    sp = [[pad[0], pad[1]], [pad[2], pad[3]]]
                    p = [[0, 0]] + sp + [[0, 0]] if f == "NHWC" else [[0, 0], [0, 0]] + sp

                def b(x, *kk):
                    return tf.nn.conv2d(x, kk[0] if kk else tf.constant(k), win(st, f), p, f, win(dil, f))
                return b
            f = mk(fmt)
            ref = None
            if fmt == "NCHW":
                g = mk("NHWC")
                ref = lambda x, *kk, g=g: to_first(g(to_last(x, 2), *kk), 2)
            if pad in ("VALID", (0, 0, 0, 0)) and ((kh - 1) * dil[0] >= h or (kw - 1) * dil[1] >= w):
                continue    # empty result: the runtime's Conv kernel has no answer
            nm = "conv2d/%s/%dx%d/k%dx%d/s%d%d/d%d%d/%s" % (fmt, h, w, kh, kw, st[0], st[1], dil[0], dil[1],
                                                       pad if isinstance(pad, str) else "".join(map(str, pad)))
            for v, q in variants(sh, fmt):
                if fmt == "NCHW" and v == "nb":
                    continue
                s.add(nm + "/" + v, f, [(q, F)], [[x]], 18, ref=ref)
            if st == (1, 1) or pad == "SAME":
                s.add(nm + "/st", f, [(sh, F)], [[x]], 10, ref=ref)
                s.add(nm + "/kin", f, [(sh, F), (list(k.shape), F)], [[x, k]], 18, ref=ref)
    # shared kernel, shared input, bias forms
    px = mixed([1, 5, 5, 2], F)
    pk = mixed([2, 2, 2, 2], F, 3)
    pbias = mixed([2], F, 7)
    xs = [([None, 5, 5, 2], F)]
    kc = lambda: tf.constant(pk)

    def two(x):
        kk = tf.constant(pk)
        return [tf.nn.conv2d(x, kk, 1, "SAME"), tf.nn.conv2d(x, kk, 2, "VALID")]

    def kernel_is_output(x):
        kk = tf.constant(pk)
        return [tf.nn.conv2d(x, kk, 1, "SAME"), tf.identity(kk), tf.reduce_sum(kk)]

    progs = {
        "sharedkernel": two,
        "kernelout": kernel_is_output,
        "chain": lambda x: tf.nn.conv2d(tf.nn.relu(tf.nn.conv2d(x, kc(), 1, "SAME")), kc(), 1, "SAME"),
        "residual": lambda x: x + tf.nn.conv2d(x, kc(), 1, "SAME"),
        "bias": lambda x: tf.nn.bias_add(tf.nn.conv2d(x, kc(), 1, "SAME"), tf.constant(pbias)),
        "biastwice": lambda x: [tf.nn.bias_add(c, tf.constant(pbias)) + tf.nn.relu(c) for c in [tf.nn.conv2d(x, kc(), 1, "SAME")]],
        "biasdouble": lambda x: tf.nn.bias_add(tf.nn.bias_add(tf.nn.conv2d(x, kc(), 1, "SAME"), tf.constant(pbias)), tf.constant(pbias * 2)),
        "biasadd": lambda x: tf.nn.conv2d(x, kc(), 1, "SAME") + tf.constant(pbias),
        "biasadd0": lambda x: tf.constant(pbias) + tf.nn.conv2d(x, kc(), 1, "SAME"),
        "biasscalar": lambda x: tf.nn.conv2d(x, kc(), 1, "SAME") + 2.0,
        "bias1": lambda x: tf.nn.conv2d(x, kc(), 1, "SAME") + tf.constant(pbias[:1]),
        "biasrank2": lambda x: tf.nn.conv2d(x, kc(), 1, "SAME") + tf.constant(pbias.reshape(1, 2)),
        "biasrank4": lambda x: tf.nn.conv2d(x, kc(), 1, "SAME") + tf.constant(pbias.reshape(1, 1, 1, 2)),
        "biasfull": lambda x: tf.nn.conv2d(x, kc(), 1, "SAME") + tf.constant(mixed([5, 5, 2], F, 1)),
        "biascol": lambda x: tf.nn.conv2d(x, kc(), 1, "SAME") + tf.constant(mixed([5, 1], F, 1)),
        "mulscale": lambda x: tf.nn.conv2d(x, kc(), 1, "SAME") * tf.constant(pbias),
        "mulscalar": lambda x: tf.nn.conv2d(x, kc(), 1, "SAME") * 3.0,
        "mulspatial": lambda x: tf.nn.conv2d(x, kc(), 1, "SAME") * tf.constant(mixed([5, 1], F, 1)),
        "muladd": lambda x: tf.nn.conv2d(x, kc(), 1, "SAME") * tf.constant(pbias) + tf.constant(pbias * 3),
        "relu6": lambda x: tf.nn.relu6(tf.nn.bias_add(tf.nn.conv2d(x, kc(), 1, "SAME"), tf.constant(pbias))),
        "padconv": lambda x: tf.nn.conv2d(tf.pad(x, [[0, 0], [1, 2], [0, 1], [0, 0]]), kc(), 1, "VALID"),
        "padconvs2": lambda x: tf.nn.conv2d(tf.pad(x, [[0, 0], [1, 1], [1, 1], [0, 0]]), kc(), 2, "VALID"),
        "padbatchconv": lambda x: tf.nn.conv2d(tf.pad(x, [[1, 0], [1, 1], [1, 1], [0, 0]]), kc(), 2, "VALID"),
        "padchanconv": lambda x: tf.nn.conv2d(tf.pad(x, [[0, 0], [1, 1], [1, 1], [0, 1]]), tf.constant(mixed([2, 2, 3, 2], F)), 1, "VALID"),
        "padvconv": lambda x: tf.nn.conv2d(tf.pad(x, [[0, 0], [1, 1], [1, 1], [0, 0]], constant_values=2.), kc(), 1, "VALID"),
        "padreflconv": lambda x: tf.nn.conv2d(tf.pad(x, [[0, 0], [1, 1], [1, 1], [0, 0]], mode="REFLECT"), kc(), 1, "VALID"),
        "padsameconv": lambda x: tf.nn.conv2d(tf.pad(x, [[0, 0], [1, 1], [1, 1], [0, 0]]), kc(), 2, "SAME"),
        "padpool": lambda x: tf.nn.max_pool2d(tf.pad(x, [[0, 0], [1, 1], [1, 1], [0, 0]]), 2, 2, "VALID"),
        "padavgpool": lambda x: tf.nn.avg_pool2d(tf.pad(x, [[0, 0], [1, 1], [1, 1], [0, 0]]), 2, 2, "VALID"),
        "padshared": lambda x: [tf.nn.conv2d(p, kc(), 1, "VALID") + tf.reduce_sum(p) for p in [tf.pad(x, [[0, 0], [1, 1], [1, 1], [0, 0]])]],
        "bn": lambda x: tf.compat.v1.nn.fused_batch_norm(tf.nn.conv2d(x, kc(), 1, "SAME"), pbias, pbias + 1, mean=pbias * .5, variance=np.abs(pbias) + .5, is_training=False)[0],
        "bnbias": lambda x: tf.compat.v1.nn.fused_batch_norm(tf.nn.bias_add(tf.nn.conv2d(x, kc(), 1, "SAME"), pbias), pbias, pbias + 1, mean=pbias * .5, variance=np.abs(pbias) + .5, is_training=False)[0],
        "bnshared": lambda x: [tf.compat.v1.nn.fused_batch_norm(c, pbias, pbias + 1, mean=pbias * .5, variance=np.abs(pbias) + .5, is_training=False)[0] - c for c in [tf.nn.conv2d(x, kc(), 1, "SAME")]],
        "dwbn": lambda x: tf.compat.v1.nn.fused_batch_norm(tf.nn.depthwise_conv2d(x, tf.constant(pk[:, :, :, :1]), [1, 1, 1, 1], "SAME"), pbias, pbias + 1, mean=pbias * .5, variance=np.abs(pbias) + .5, is_training=False)[0],
        "meanpool": lambda x: tf.reduce_mean(tf.nn.conv2d(x, kc(), 1, "SAME"), [1, 2]),
        "meanpoolkeep": lambda x: tf.reduce_mean(tf.nn.conv2d(x, kc(), 1, "SAME"), [1, 2], keepdims=True),
        "flatten": lambda x: tf.reshape(tf.nn.conv2d(x, kc(), 1, "SAME"), [-1, 50]),
        "concat": lambda x: tf.concat([x, tf.nn.conv2d(x, kc(), 1, "SAME")], -1),
        "s2bconv": lambda x: tf.batch_to_space(tf.nn.conv2d(tf.space_to_batch(x, [2, 2], [[2, 3], [2, 3]]), kc(), 1, "VALID"), [2, 2], [[0, 1], [0, 1]]),
        "s2bconv2": lambda x: tf.batch_to_space(tf.nn.conv2d(tf.space_to_batch(x, [2, 2], [[1, 2], [1, 2]]), kc(), 1, "VALID"), [2, 2], [[0, 0], [0, 0]]),
        "s2bconvsame": lambda x: tf.batch_to_space(tf.nn.conv2d(tf.space_to_batch(x, [2, 2], [[0, 1], [0, 1]]), kc(), 1, "SAME"), [2, 2], [[0, 1], [0, 1]]),
        "s2bdw": lambda x: tf.batch_to_space(tf.nn.depthwise_conv2d(tf.space_to_batch(x, [2, 2], [[1, 2], [1, 2]]), kc(), [1, 1, 1, 1], "VALID"), [2, 2], [[0, 0], [0, 0]]),
    }
    for nm, f in progs.items():
        for o in (18, 13, 10):
            for v, q in (("st", [1, 5, 5, 2]), ("nb", [None, 5, 5, 2]), ("dy", [None, None, None, 2])):
                s.add("convprog/%s/%s" % (nm, v), f, [(q, F)], [[px]], o)
    # ---------------- Conv1D / Conv3D
    for L, kl, st, dil, pad in itertools.product((5, 6), (1, 2, 3), (1, 2), (1, 2), ("SAME", "VALID")):
        if st > 1 and dil > 1:
            continue
        x = mixed([2, L, 2], F)
        k = mixed([kl, 2, 3], F, 3)
        for v, q in (("st", [2, L, 2]), ("dy", [None, None, 2])):
            s.add("conv1d/%d/k%d/s%d/d%d/%s/%s" % (L, kl, st, dil, pad, v),
                  lambda x, k=k, st=st, dil=dil, pad=pad: tf.nn.conv1d(x, tf.constant(k), st, pad, dilations=dil), [(q, F)], [[x]], 18)
    for (d, h, w), ks, st, pad in itertools.product([(3, 4, 2), (4, 3, 3)], [(1, 1, 1), (2, 2, 2), (2, 1, 2), (3, 2, 1)],
                                              [(1, 1, 1), (2, 2, 2), (1, 2, 1)], ("SAME", "VALID")):
        for fmt in ("NDHWC", "NCDHW"):
            sh = shape_for(1, (d, h, w), 2, fmt)
            x = mixed(sh, F)
            k = mixed(list(ks) + [2, 2], F, 1)
            if pad == "VALID" and any(a > b for a, b in zip(ks, (d, h, w))):
                continue
            f = lambda x, k=k, st=st, pad=pad, fmt=fmt: tf.nn.conv3d(x, tf.constant(k), win(st, fmt), pad, fmt)
            ref = None if fmt == "NDHWC" else (lambda x, k=k, st=st, pad=pad: to_first(tf.nn.conv3d(to_last(x, 3), tf.constant(k), win(st, "NDHWC"), pad), 3))
            for v, q in variants(sh, fmt):
                if v != "nb":
                    s.add("conv3d/%s/%s/k%s/s%s/%s/%s" % (fmt, shp((d, h, w)), shp(ks), shp(st), pad, v), f, [(q, F)], [[x]], 18, ref=ref)
    # ---------------- depthwise
    for (h, w), (kh, kw), st, mult, ci, pad in itertools.product([(5, 5), (4, 6)], [(1, 1), (2, 2), (3, 3), (3, 2)], (1, 2), (1, 2), (1, 3),
                                                             ("SAME", "VALID")):
        for dil in ((1, 1), (2, 2)):
            if st > 1 and dil != (1, 1):
                continue
            for fmt in ("NHWC", "NCHW"):
                if fmt == "NCHW" and (dil != (1, 1) or mult > 1):
                    continue
                sh = shape_for(2, (h, w), ci, fmt)
                x = mixed(sh, F)
                k = mixed([kh, kw, ci, mult], F, 2)

                def mk(f, k=k, st=st, dil=dil, pad=pad):
                    return lambda x, *kk: R.DepthwiseConv2dNative(input=x, filter=kk[0] if kk else tf.constant(k), strides=win((st, st), f),
                                                             padding=pad, data_format=f, dilations=win(dil, f))
                f = mk(fmt)
                ref = None if fmt == "NHWC" else (lambda x, g=mk("NHWC"): to_first(g(to_last(x, 2)), 2))
                if dil != (1, 1):
                    # the CPU kernel ignores dilations: the reference dilates the kernel
                    kd = np.zeros([(kh - 1) * 2 + 1, (kw - 1) * 2 + 1, ci, mult], F)
                    kd[::2, ::2] = k
                    ref = lambda x, *kk, g=mk("NHWC", kd, st, (1, 1), pad): g(x)
                if pad == "VALID" and ((kh - 1) * dil[0] >= h or (kw - 1) * dil[0] >= w):
                    continue
                nm = "dw/%s/%dx%d/k%dx%d/s%d/m%d/c%d/d%d/%s" % (fmt, h, w, kh, kw, st, mult, ci, dil[0], pad)
                for v, q in variants(sh, fmt):
                    if v != "nb":
                        s.add(nm + "/" + v, f, [(q, F)], [[x]], 18, ref=ref)
                s.add(nm + "/st", f, [(sh, F)], [[x]], 10, ref=ref)
                if fmt == "NHWC" and dil == (1, 1):
                    s.add(nm + "/kin", f, [(sh, F), (list(k.shape), F)], [[x, k]], 18, ref=ref)
    # ---------------- transposed conv
    for (h, w), (kh, kw), st, pad in itertools.product([(2, 3), (3, 3)], [(1, 1), (2, 2), (3, 3), (3, 2), (2, 4)], [(1, 1), (2, 2), (1, 2), (3, 3)],
                                                 ("SAME", "VALID")):
        if pad == "SAME":
            outs = sorted({(a, b) for a in range((h - 1) * st[0] + 1, h * st[0] + 1) for b in range((w - 1) * st[1] + 1, w * st[1] + 1)})
        else:
            outs = sorted({(a, b) for a in range((h - 1) * st[0] + kh, (h - 1) * st[0] + kh + st[0])
                           for b in range((w - 1) * st[1] + kw, (w - 1) * st[1] + kw + st[1])})
        if not thorough:
            outs = [o for i, o in enumerate(outs) if i in (0, len(outs) - 1, len(outs) // 2)]
        for oh, ow in outs:
            for fmt in ("NHWC", "NCHW"):
                x = mixed(shape_for(2, (h, w), 3, fmt), F)
                k = mixed([kh, kw, 2, 3], F, 4)
                osh = shape_for(2, (oh, ow), 2, fmt)

                def mk(f, osh, k=k, st=st, pad=pad):
                    return lambda x, *kk: R.Conv2DBackpropInput(input_sizes=kk[0] if kk else np.array(osh, np.int32), filter=tf.constant(k), out_backprop=x,
                                                           strides=win(st, f), padding=pad, data_format=f)
                f = mk(fmt, osh)
                ref = None if fmt == "NHWC" else (lambda x, g=mk("NHWC", [2, oh, ow, 2]): to_first(g(to_last(x, 2)), 2))
                nm = "convt/%s/%dx%d/k%dx%d/s%d%d/%s/o%dx%d" % (fmt, h, w, kh, kw, st[0], st[1], pad, oh, ow)
                s.add(nm + "/st", f, [(list(x.shape), F)], [[x]], 18, ref=ref)
                s.add(nm + "/st", f, [(list(x.shape), F)], [[x]], 10, ref=ref)
                if fmt == "NHWC":
                    s.add(nm + "/rt", f, [(list(x.shape), F), ([4], "int32")], [[x, np.array(osh, np.int32)]], 18)
                    g = lambda x, osh=osh, k=k, st=st, pad=pad: tf.nn.conv2d_transpose(x, tf.constant(k), [tf.shape(x)[0]] + osh[1:], list(st), pad)
                    s.add(nm + "/nb", g, [([None, h, w, 3], F)], [[x]], 18)
                    s.add(nm + "/dy", g, [([None, None, None, 3], F)], [[x]], 18)
    for d, ks, st, pad in itertools.product([(2, 2, 2), (1, 2, 3)], [(1, 1, 1), (2, 2, 2), (3, 2, 1)], [(1, 1, 1), (2, 2, 2), (1, 2, 1)], ("SAME", "VALID")):
        x = mixed([1] + list(d) + [2], F)
        k = mixed(list(ks) + [2, 2], F, 4)
        o3 = [d[i] * st[i] if pad == "SAME" else (d[i] - 1) * st[i] + ks[i] for i in range(3)]
        s.add("convt3/%s/k%s/s%s/%s" % (shp(d), shp(ks), shp(st), pad),
              lambda x, k=k, st=st, pad=pad, o3=o3: tf.nn.conv3d_transpose(x, tf.constant(k), [1] + o3 + [2], list(st), pad), [(list(x.shape), F)], [[x]], 18)
        outs = [sorted({o3[i], o3[i] - 1} if st[i] > 1 and (pad == "SAME" or ks[i] > 0) else {o3[i]}) for i in range(3)]
        for q, osh in enumerate(itertools.product(*[v if pad == "SAME" else v[-1:] for v in outs])):
            if pad == "SAME" and any((a + b - 1) // b != c for a, b, c in zip(osh, st, d)):
                continue

            def f3(x, *n, k=k, st=st, pad=pad, osh=osh):
                return R.Conv3DBackpropInputV2(input_sizes=n[0] if n else np.array([1] + list(osh) + [2], np.int32), filter=tf.constant(k), out_backprop=x,
                                               strides=[1] + list(st) + [1], padding=pad)
            nm = "convt3/%s/k%s/s%s/%s/o%s" % (shp(d), shp(ks), shp(st), pad, shp(osh))
            s.add(nm + "/st", f3, [(list(x.shape), F)], [[x]], 18)
            s.add(nm + "/st", f3, [(list(x.shape), F)], [[x]], 11)
            s.add(nm + "/rt", f3, [(list(x.shape), F), ([5], "int32")], [[x, np.array([1] + list(osh) + [2], np.int32)]], 18)
            s.add(nm + "/dy", lambda x, k=k, st=st, pad=pad, osh=osh: tf.nn.conv3d_transpose(x, tf.constant(k), [tf.shape(x)[0]] + list(osh) + [2], list(st), pad),
                  [([None] * 4 + [2], F)], [[x]], 18)
    # ---------------- pooling
    for (h, w), ks, st, pad in itertools.product([(5, 5), (4, 6)], [(1, 1), (2, 2), (3, 3), (3, 2)], [(1, 1), (2, 2), (1, 3), (3, 2)], ("SAME", "VALID")):
        for fmt in ("NHWC", "NCHW"):
            sh = shape_for(2, (h, w), 2, fmt)
            x = mixed(sh, F)
            for kind, fn in (("max", tf.nn.max_pool2d), ("avg", tf.nn.avg_pool2d)):
                f = lambda x, fn=fn, fmt=fmt, ks=ks, st=st, pad=pad: fn(x, list(ks), list(st), pad, fmt)
                ref = None if fmt == "NHWC" else (lambda x, fn=fn, ks=ks, st=st, pad=pad: to_first(fn(to_last(x, 2), list(ks), list(st), pad), 2))
                for v, q in variants(sh, fmt):
                    if v != "st" and pad == "SAME" and any(a > b for a, b in zip(st, ks)):
                        continue    # onnxruntime's auto_pad computes a negative padding where the stride skips rows
                    for o in ((18, 10) if v == "st" else (18,)):
                        if fmt == "NHWC" or v == "st":
                            s.add("pool/%s/%s/%dx%d/k%dx%d/s%d%d/%s/%s" % (kind, fmt, h, w, ks[0], ks[1], st[0], st[1], pad, v), f, [(q, F)], [[x]], o, ref=ref)
        x = mixed([1, h, w, 2], F)
        for batch in (False, True):
            xx = mixed([2 if batch else 1, h, w, 2], F, 3)
            s.add("argpool/%dx%d/k%dx%d/s%d%d/%s/b%d" % (h, w, ks[0], ks[1], st[0], st[1], pad, batch),
                  lambda x, ks=ks, st=st, pad=pad, b=batch: list(tf.nn.max_pool_with_argmax(x, list(ks), list(st), pad, include_batch_in_index=b)),
                  [(list(xx.shape), F)], [[xx]], 18)
        # explicit padding of MaxPool, MaxPoolV2 with run-time window
        s.add("poolv2/%dx%d/k%dx%d/s%d%d/%s" % (h, w, ks[0], ks[1], st[0], st[1], pad),
              lambda x, ks=ks, st=st, pad=pad: R.MaxPoolV2(input=x, ksize=win(ks, "NHWC"), strides=win(st, "NHWC"), padding=pad), [([None, h, w, 2], F)], [[x]], 18)
        for ep in ((0, 1, 1, 0), (1, 1, 0, 0)):
            if min(ks) > 1:
                s.add("poolexp/%dx%d/k%dx%d/s%d%d/%s" % (h, w, ks[0], ks[1], st[0], st[1], "".join(map(str, ep))),
                      lambda x, ks=ks, st=st, ep=ep: tf.nn.max_pool2d(x, list(ks), list(st), [[0, 0], ep[:2], ep[2:], [0, 0]]), [([None, h, w, 2], F)], [[x]], 18)
    for L, k, st, pad in itertools.product((5, 6), (1, 2, 3), (1, 2), ("SAME", "VALID")):
        x = mixed([2, L, 2], F)
        for kind, fn in (("max", tf.nn.max_pool1d), ("avg", tf.nn.avg_pool1d)):
            s.add("pool1/%s/%d/k%d/s%d/%s" % (kind, L, k, st, pad), lambda x, fn=fn, k=k, st=st, pad=pad: fn(x, k, st, pad), [([None, L, 2], F)], [[x]], 18)
    for d, ks, st, pad in itertools.product([(3, 4, 2), (4, 3, 3)], [(1, 1, 1), (2, 2, 2), (2, 3, 1)], [(1, 1, 1), (2, 2, 2), (1, 2, 1)], ("SAME", "VALID")):
        x = mixed([1] + list(d) + [2], F)
        for kind, fn in (("max", tf.nn.max_pool3d), ("avg", tf.nn.avg_pool3d)):
            for q in ([None] + list(d) + [2], [None, None, None, None, 2]):
                s.add("pool3/%s/%s/%s/k%s/s%s/%s" % (kind, shp(d), "dy" if q[1] is None else "nb", shp(ks), shp(st), pad),
                      lambda x, fn=fn, ks=ks, st=st, pad=pad: fn(x, list(ks), list(st), pad), [(q, F)], [[x]], 18)
    # ---------------- BiasAdd on every rank and layout
    for sh in ([2, 3], [2, 4, 3], [1, 2, 2, 3], [1, 2, 1, 2, 3]):
        b = mixed([3], F, 1)
        for o in (18, 10):
            for q in (sh, [None] * (len(sh) - 1) + [3]):
                s.add("biasadd/%s/%s" % (shp(sh), shp(q)), lambda x, b: tf.nn.bias_add(x, b), [(q, F), ([3], F)], [[mixed(sh, F), b]], o)
        if len(sh) > 2:
            sc = [sh[0], 3] + sh[1:-1]
            s.add("biasaddc/%s" % shp(sc), lambda x, b: R.BiasAdd(value=x, bias=b, data_format="NCHW"), [(sc, F), ([3], F)], [[mixed(sc, F), b]], 18)
    # ---------------- ExtractImagePatches
    for (h, w), k, st, rt, pad in itertools.product([(4, 4), (5, 6)], [(2, 2), (3, 2)], [(1, 1), (2, 2), (2, 1)], [(1, 1), (2, 2), (1, 2)], ("VALID", "SAME")):
        x = mixed([1, h, w, 2], F)
        s.add("patches/%dx%d/k%dx%d/s%d%d/r%d%d/%s" % (h, w, k[0], k[1], st[0], st[1], rt[0], rt[1], pad),
              lambda x, k=k, st=st, rt=rt, pad=pad: tf.image.extract_patches(x, win(k, "NHWC"), win(st, "NHWC"), win(rt, "NHWC"), pad), [([1, h, w, 2], F)], [[x]], 18)
    return s.out
