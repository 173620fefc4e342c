"""C03: slicing, indexing, gather, scatter, selection-by-index ops."""
import itertools

import numpy as np
import tensorflow as tf

from mc import tfcase
from mc.tfcase import Suite, dyn, mixed, shp

tfcase.define(globals(), "C03")
R = tf.raw_ops


def ss(b, e, st, m):
    b, e, st = (np.array(v, np.int32) for v in (b, e, st))
    return lambda x: R.StridedSlice(input=x, begin=tf.constant(b), end=tf.constant(e), strides=tf.constant(st),
                                    begin_mask=m.get("b", 0), end_mask=m.get("e", 0), ellipsis_mask=m.get("el", 0),
                                    new_axis_mask=m.get("na", 0), shrink_axis_mask=m.get("sh", 0))


def ss_dyn(st, m):
    st = np.array(st, np.int32)
    return lambda x, b, e: R.StridedSlice(input=x, begin=b, end=e, strides=tf.constant(st),
                                          begin_mask=m.get("b", 0), end_mask=m.get("e", 0), ellipsis_mask=m.get("el", 0),
                                          new_axis_mask=m.get("na", 0), shrink_axis_mask=m.get("sh", 0))


def cases(tier):
    s = Suite()
    thorough = tier == "thorough"
    legacy = [12, 10] if not thorough else [17, 15, 13, 12, 11, 10, 9]
    # --- StridedSlice, 1-D: every begin/end/stride/mask
    x5 = mixed([5], "float32")
    for b, e in itertools.product([-6, -2, 0, 1, 3, 5, 7], repeat=2):
        for st in (1, 2, -1, -2):
            for bm, em in itertools.product((0, 1), repeat=2):
                for opset in [18] + ([12] if st in (1, -1) else []):
                    s.add("ss1/%d_%d_%d/m%d%d" % (b, e, st, bm, em), ss([b], [e], [st], {"b": bm, "e": em}),
                          [([None], "float32")], [[x5], [x5[:2]], [x5[:0]]], opset)
        for nv, m in (("sh", {"sh": 1}), ("na", {"na": 1})):
            if nv == "sh" and not -5 <= b < 5:
                continue
            s.add("ss1%s/%d_%d" % (nv, b, e), ss([b], [e], [1], m), [([None], "float32")], [[x5]], 18)
            s.add("ss1%s/%d_%d" % (nv, b, e), ss([b], [e], [1], m), [([5], "float32")], [[x5]], 12)
    # --- StridedSlice, 2-D/3-D: every mask combination over a 2- or 3-element spec
    for n in (1, 2, 3):
        specs = {1: ([1], [3], [1]), 2: ([1, 0], [3, 2], [1, 2]), 3: ([1, 0, 1], [2, 3, 2], [1, 2, 1])}[n]
        specs_neg = {1: ([-1], [-3], [-1]), 2: ([-2, -1], [-1, 0], [1, -1]), 3: ([-1, 0, -2], [-3, 2, 7], [-1, 1, 1])}[n]
        for rank in (2, 3):
            shape = [3, 4, 2][:rank]
            x = mixed(shape, "float32", n)
            for (b, e, st), sn in ((specs, "pos"), (specs_neg, "neg")):
                for bm, em in itertools.product(range(2 ** n), repeat=2):
                    if n == 3 and (bm not in (0, 1, 2, 5, 7) or em not in (0, 1, 4, 6, 7)):
                        continue
                    for el in [0] + [1 << i for i in range(n)]:
                        for na in range(2 ** n):
                            for sh in range(2 ** n):
                                if (na & sh) or (el & (na | sh)):
                                    continue
                                if n == 3 and bm and em and (na and sh):
                                    continue
                                consumed = n - bin(el).count("1") - bin(na).count("1")
                                if consumed > rank:
                                    continue
                                if n == 3 and not thorough and (bm * 8 + em + na + sh) % 3:
                                    continue
                                nm = "ssm/r%d/n%d/%s/b%de%del%dna%dsh%d" % (rank, n, sn, bm, em, el, na, sh)
                                f = ss(b, e, st, {"b": bm, "e": em, "el": el, "na": na, "sh": sh})
                                s.add(nm + "/dyn", f, [(dyn(shape), "float32")], [[x]], 18)
                                if n < 3 or thorough:
                                    s.add(nm + "/static", f, [(shape, "float32")], [[x]], 18 if (bm + em) % 2 else 12)
    # run-time begin/end
    for n in (1, 2):
        for em in range(2 ** n):
            for bm in range(2 ** n):
                for sh in range(2 ** n):
                    for na in (range(2 ** n) if not sh else [0]):
                        for el in [0] + ([1, 2] if n == 2 else []):
                            if (na & sh) or (el & (na | sh)):
                                continue
                            x = mixed([3, 4], "float32", 2)
                            feeds = [[x, np.array(b[:n], np.int32), np.array(e[:n], np.int32)]
                                     for b, e in (([0, 1], [2, 3]), ([1, 2], [2, 4]), ([-1, -2], [3, -1]))]
                            for opset in (18, 11):
                                s.add("ssd/n%d/b%de%dsh%dna%del%d" % (n, bm, em, sh, na, el), ss_dyn([1] * n, {"b": bm, "e": em, "sh": sh, "na": na, "el": el}),
                                      [([None, None], "float32"), ([n], "int32"), ([n], "int32")], feeds, opset)
    for dt in ("int32", "int64", "bool", "float64", "string", "uint8", "float16", "int8", "int16"):
        x = mixed([3, 4], dt) if dt != "string" else np.array([["a", "b", "c", "d"]] * 3, object)
        for opset in (18, 12):
            s.add("sst/%s" % dt, lambda x: x[1:, ::2], [([None, 4], dt)], [[x]], opset)
            s.add("sst0/%s" % dt, lambda x: x[:, 0], [([None, 4], dt)], [[x]], opset)
    # --- Slice
    for b in itertools.product(range(0, 3), range(0, 3)):
        for sz in itertools.product((-1, 0, 1, 2), (-1, 0, 1, 2)):
            if any(bb + max(z, 0) > 3 for bb, z in zip(b, sz)):
                continue
            x = mixed([3, 3], "float32")
            for mode in ("static", "dyn"):
                for opset in [18] + ([9, 12] if mode == "static" else []):
                    s.add("slice/%s/%s/%s" % (shp(b), ",".join(map(str, sz)), mode),
                          lambda x, b=b, z=sz: R.Slice(input=x, begin=tf.constant(b, tf.int32), size=tf.constant(z, tf.int32)),
                          [([3, 3] if mode == "static" else [None, None], "float32")], [[x]], opset)
    for idt in ("int32", "int64"):
        for opset in (18, 12, 10):
            s.add("slicedyn/%s" % idt, lambda x, b, z: R.Slice(input=x, begin=b, size=z), [([None, None], "float32"), ([2], idt), ([2], idt)],
                  [[mixed([3, 4], "float32"), np.array(b, idt), np.array(z, idt)] for b, z in
                   (([0, 1], [2, 2]), ([1, 0], [1, 4]), ([2, 3], [1, 1]), ([0, 0], [3, 4]), ([1, 1], [-1, -1]), ([1, 1], [-1, 2]), ([0, 2], [3, -1]))], opset)
            for z in ([-1, 2], [2, -1], [1, 1], [-1, -1]):
                s.add("slicedynb/%s/%s" % (idt, ",".join(map(str, z))), lambda x, b, z=z: R.Slice(input=x, begin=b, size=tf.constant(z, b.dtype)),
                      [([None, None], "float32"), ([2], idt)], [[mixed([3, 4], "float32"), np.array(b, idt)] for b in ([0, 1], [1, 0], [1, 2])], opset)
    # --- Gather family: every index value, every axis, every batch_dims
    for shape in ([4], [3, 2], [2, 3, 2]):
        rank = len(shape)
        for axis in range(-rank, rank):
            dim = shape[axis]
            for ishape in ([], [1], [3], [2, 2]):
                for idt in ("int32", "int64"):
                    for opset in (18, 12, 11) if idt == "int32" else (18,):
                        n = int(np.prod(ishape)) if ishape else 1
                        idxs = [np.array([(k * 3 + j * 2) % dim for j in range(n)], idt).reshape(ishape) for k in range(dim)]
                        for mode in ("static", "dyn"):
                            s.add("gather/%s/a%d/%s/%s/%s" % (shp(shape), axis, shp(ishape), idt, mode), gat(axis, 0),
                                  [(shape if mode == "static" else dyn(shape), "float32"), (ishape if mode == "static" else dyn(ishape), idt)],
                                  [[mixed(shape, "float32"), i] for i in idxs], opset)
                        s.add("gatherc/%s/a%d/%s/%s" % (shp(shape), axis, shp(ishape), idt), gat_const(axis, idxs[0]),
                              [(dyn(shape), "float32")], [[mixed(shape, "float32")]], opset)
    for shape in ([2, 3], [2, 3, 2], [2, 2, 3, 2]):
        rank = len(shape)
        for bd in range(1, rank + 1):
            for axis in range(bd, rank):
                for itail in ([], [1], [3], [2, 2]):
                    ishape = shape[:bd] + itail
                    n = int(np.prod(ishape))
                    dim = shape[axis]
                    idxs = [np.array([(k + j * (k + 1)) % dim for j in range(n)], "int32").reshape(ishape) for k in range(2)]
                    for mode in ("static", "dyn"):
                        for neg in (0, 1):
                            if neg and mode == "dyn":
                                continue
                            for opset in (18, 12):
                                s.add("gatherbd/%s/b%d/a%d/%s/%s/n%d" % (shp(shape), bd, axis, shp(itail), mode, neg),
                                      gat(axis - rank if neg else axis, bd - len(ishape) if neg else bd),
                                      [(shape if mode == "static" else dyn(shape), "float32"), (ishape if mode == "static" else dyn(ishape), "int32")],
                                      [[mixed(shape, "float32"), i] for i in idxs], opset)
    for shape in ([4], [3, 2], [2, 3, 2]):
        for k in range(1, len(shape) + 1):
            for ishape in ([], [1], [2], [2, 1], [2, 2]):
                pts = list(itertools.product(*[range(d) for d in shape[:k]]))
                n = int(np.prod(ishape)) if ishape else 1
                feeds = [[mixed(shape, "float32"), np.array([pts[(q + j * 3) % len(pts)] for j in range(n)], "int32").reshape(ishape + [k])] for q in range(3)]
                for idt in ("int32", "int64"):
                    for opset in (18, 12, 11, 10):
                        s.add("gathernd/%s/k%d/%s/%s" % (shp(shape), k, shp(ishape), idt), lambda x, i: R.GatherNd(params=x, indices=i),
                              [(dyn(shape), "float32"), (dyn(ishape) + [k], idt)], [[f[0], f[1].astype(idt)] for f in feeds], opset)
                        s.add("gathernds/%s/k%d/%s/%s" % (shp(shape), k, shp(ishape), idt), lambda x, i: R.GatherNd(params=x, indices=i),
                              [(shape, "float32"), (ishape + [k], idt)], [[f[0], f[1].astype(idt)] for f in feeds], opset)
        if len(shape) > 1:
            for bd in range(1, len(shape)):
                for opset in (18, 10):
                    s.add("gatherndbd/%s/b%d" % (shp(shape), bd), lambda x, i, bd=bd: tf.gather_nd(x, i, batch_dims=bd),
                          [(shape, "float32"), (shape[:bd] + [1], "int32")],
                          [[mixed(shape, "float32"), np.array([(j + q) % shape[bd] for j in range(int(np.prod(shape[:bd])))], "int32").reshape(shape[:bd] + [1])] for q in range(2)], opset)
    # --- Scatter family
    for shape in ([4], [3, 2], [2, 2, 2]):
        for k in range(1, len(shape) + 1):
            pts = list(itertools.product(*[range(d) for d in shape[:k]]))
            subsets = list(itertools.permutations(pts, 2))[:8] + [(p,) for p in pts[:2]]
            for n in (1, 2):
                sel = [t for t in subsets if len(t) == n]
                feeds = [[np.array(t, "int32"), mixed([n] + shape[k:], "float32", q)] for q, t in enumerate(sel)]
                dup = [[np.array((t[0], t[0]), "int32"), mixed([2] + shape[k:], "float32", q)] for q, t in enumerate(sel)]
                for idt in ("int32", "int64"):
                    for opset in (18, 16, 13, 11):
                        fs = [[f[0].astype(idt), f[1]] for f in feeds]
                        s.add("scatternd/%s/k%d/n%d/%s" % (shp(shape), k, n, idt), scnd(shape, idt), [([None, k], idt), ([None] + shape[k:], "float32")], fs, opset)
                        s.add("scatterndd/%s/k%d/n%d/%s" % (shp(shape), k, n, idt), lambda i, u, sh: R.ScatterNd(indices=i, updates=u, shape=sh),
                              [([None, k], idt), ([None] + shape[k:], "float32"), ([len(shape)], idt)], [f + [np.array(shape, idt)] for f in fs], opset)
                    for dt in ("float32", "int32", "int64"):
                        s.add("scatternd_dup/%s/k%d/n%d/%s/%s" % (shp(shape), k, n, idt, dt), scnd(shape, idt), [([None, k], idt), ([None] + shape[k:], dt)],
                              [[f[0].astype(idt), f[1].astype(dt)] for f in dup], 18)
                        for op in ("TensorScatterUpdate", "TensorScatterAdd", "TensorScatterSub", "TensorScatterMax", "TensorScatterMin"):
                            fs2 = [[mixed(shape, dt, 5), f[0].astype(idt), f[1].astype(dt)] for f in feeds]
                            s.add("tsc/%s/%s/k%d/n%d/%s/%s" % (op, shp(shape), k, n, idt, dt), tsc(op), [(dyn(shape), dt), ([None, k], idt), ([None] + dyn(shape[k:]), dt)], fs2, 18)
                            if op != "TensorScatterUpdate":
                                fs3 = [[mixed(shape, dt, 5), f[0].astype(idt), f[1].astype(dt)] for f in dup]
                                s.add("tscdup/%s/%s/k%d/n%d/%s/%s" % (op, shp(shape), k, n, idt, dt), tsc(op), [(dyn(shape), dt), ([None, k], idt), ([None] + dyn(shape[k:]), dt)], fs3, 18)
    # --- OneHot
    for axis in (-1, 0, 1, 2):
        for shape in ([], [3], [2, 3]):
            if axis > len(shape):
                continue
            for idt in ("int32", "int64", "uint8"):
                for dt, on, off in (("float32", 1.0, 0.0), ("int32", 5, -1), ("float32", 0.5, 2.0), ("bool", True, False), ("int64", 3, 0), ("int32", 0, 1), ("bool", False, True)):
                    for depth in (1, 3):
                        idx = [mixed(shape, "int32", k) % 3 for k in (0, 1)]
                        neg = [np.where(i == 0, -1, i) for i in idx] + [i + 2 for i in idx]
                        for mode in ("static", "dyn"):
                            for opset in (18, 10):
                                if opset == 10 and mode == "dyn":
                                    continue
                                f = oneh(axis, depth, dt, on, off)
                                s.add("onehot/%s/a%d/%s/%s/%s_%s/d%d/%s" % (shp(shape), axis, idt, dt, on, off, depth, mode), f,
                                      [(shape if mode == "static" else dyn(shape), idt)], [[i.astype(idt)] for i in idx], opset)
                                if idt != "uint8":
                                    s.add("onehotoob/%s/a%d/%s/%s/%s_%s/d%d/%s" % (shp(shape), axis, idt, dt, on, off, depth, mode), f,
                                          [(shape if mode == "static" else dyn(shape), idt)], [[i.astype(idt)] for i in neg], opset)
    for opset in (18, 11):
        s.add("onehotdyn", lambda i, d: R.OneHot(indices=i, depth=d, on_value=tf.constant(1.0), off_value=tf.constant(0.0), axis=-1),
              [([None], "int32"), ([], "int32")], [[np.array([0, 2, 1], "int32"), np.array(d, "int32")] for d in (1, 2, 4)], opset)
    # --- TopK: every vector with ties
    allv = np.array(list(itertools.product([0, 1, 2], repeat=4)), np.float32)
    for k in (1, 2, 4):
        for srt in (True, False):
            for dt in ("float32", "int32", "int64", "float64"):
                for opset in (18, 11, 10):
                    s.add("topk/k%d/s%d/%s" % (k, srt, dt), topk(k, srt), [([None, None], dt)], [[allv.astype(dt)], [mixed([2, 5], dt)]], opset)
            s.add("topk1d/k%d/s%d" % (k, srt), topk(k, srt), [([None], "float32")], [[v] for v in allv[::7]], 18)
    s.add("topkdyn", lambda x, k: R.TopKV2(input=x, k=k), [([None, None], "float32"), ([], "int32")], [[mixed([2, 5], "float32"), np.array(k, "int32")] for k in (1, 3, 5, 0)], 18)
    # --- Where / boolean_mask / unique / dynamic partition & stitch / reverse / roll
    for shape in ([3], [2, 2], [2, 1, 2]):
        for dt in ("bool", "float32", "int32"):
            n = int(np.prod(shape))
            feeds = [[np.array(v).astype(dt).reshape(shape)] for v in itertools.product([0, 1], repeat=n)]
            for opset in (18, 12, 9):
                s.add("where/%s/%s" % (shp(shape), dt), lambda x: R.Where(condition=x), [(dyn(shape), dt)], feeds, opset)
    for ax in (0, 1):
        feeds = [[mixed([3, 2] if ax == 0 else [2, 3], "float32"), np.array(v, bool)] for v in itertools.product([0, 1], repeat=3)]
        for opset in (18, 12):
            s.add("boolmask/a%d" % ax, lambda x, m, a=ax: tf.boolean_mask(x, m, axis=a), [([None, None], "float32"), ([None], "bool")], feeds, opset)
    s.add("boolmask/2d", lambda x, m: tf.boolean_mask(x, m), [([None, None, 2], "float32"), ([None, None], "bool")],
          [[mixed([2, 2, 2], "float32"), np.array(v, bool).reshape(2, 2)] for v in itertools.product([0, 1], repeat=4)], 18)
    allu = [np.array(v) for n in range(1, 5) for v in itertools.product([0, 1, 2], repeat=n)]
    for dt in ("int32", "int64", "float32"):
        for odt in ("int32", "int64"):
            for opset in (18, 11):
                for op in ("Unique", "UniqueWithCounts"):
                    s.add("unique/%s/%s/%s" % (op, dt, odt), uni(op, odt), [([None], dt)], [[v.astype(dt)] for v in allu], opset)
                s.add("uniquevals/%s/%s" % (dt, odt), uni_part("Unique", odt, 0), [([None], dt)], [[v.astype(dt)] for v in allu], opset)
                s.add("uniqueidx/%s/%s" % (dt, odt), uni_part("Unique", odt, 1), [([None], dt)], [[v.astype(dt)] for v in allu], opset)
                s.add("uniquecnt/%s/%s" % (dt, odt), uni_part("UniqueWithCounts", odt, 2), [([None], dt)], [[v.astype(dt)] for v in allu], opset)
    for n in (1, 2, 3):
        for np_ in (1, 2, 3):
            feeds = [[mixed([n, 2], "float32", k), np.array(v, "int32")] for k, v in enumerate(itertools.product(range(np_), repeat=n))]
            for opset in (18, 12):
                s.add("dynpart/n%d/p%d" % (n, np_), lambda x, p, k=np_: R.DynamicPartition(data=x, partitions=p, num_partitions=k), [([None, 2], "float32"), ([None], "int32")], feeds, opset)
                s.add("dynpart1/n%d/p%d" % (n, np_), lambda x, p, k=np_: R.DynamicPartition(data=x, partitions=p, num_partitions=k), [([None], "float32"), ([None], "int32")], [[f[0][:, 0], f[1]] for f in feeds], opset)
    for op in ("DynamicStitch", "ParallelDynamicStitch"):
        for perm in itertools.permutations(range(3)):
            for cut in (0, 1, 2, 3):
                i1, i2 = np.array(perm[:cut], "int32"), np.array(perm[cut:], "int32")
                for tail in ([], [2]):
                    for opset in (18, 12):
                        s.add("stitch/%s/%s/c%d/%s" % (op, "".join(map(str, perm)), cut, shp(tail)), stitch(op),
                              [([None], "int32"), ([None], "int32"), ([None] + tail, "float32"), ([None] + tail, "float32")],
                              [[i1, i2, mixed([cut] + tail, "float32"), mixed([3 - cut] + tail, "float32", 3)]], opset)
        # later duplicates win
        for a, b in itertools.product(itertools.product(range(2), repeat=2), repeat=2):
            if set(a + b) == {0, 1} and op == "DynamicStitch":
                s.add("stitchdup/%s/%s" % ("".join(map(str, a)), "".join(map(str, b))), stitch(op),
                      [([None], "int32"), ([None], "int32"), ([None], "float32"), ([None], "float32")],
                      [[np.array(a, "int32"), np.array(b, "int32"), mixed([2], "float32"), mixed([2], "float32", 3)]], 18)
    for shape in ([3], [2, 3], [2, 3, 2]):
        for r in range(0, len(shape) + 1):
            for ax in itertools.combinations(range(len(shape)), r):
                for neg in (0, 1):
                    axs = [a - len(shape) if neg else a for a in ax]
                    for dt in ("float32", "int32"):
                        for mode in ("static", "dyn"):
                            for opset in (18, 10):
                                s.add("reverse/%s/%s/%s/%s" % (shp(shape), ",".join(map(str, axs)), dt, mode),
                                      lambda x, a=axs: R.ReverseV2(tensor=x, axis=tf.constant(a, tf.int32)), [(shape if mode == "static" else dyn(shape), dt)], [[mixed(shape, dt)]], opset)
    for rank in (2, 3):
        shape = [2, 3, 2][:rank]
        for bdim, sdim in itertools.permutations(range(rank), 2):
            lens = list(itertools.product(range(1, shape[sdim] + 1), repeat=shape[bdim]))   # length 0: the kernel of onnxruntime leaves the row unset
            for ldt in ("int32", "int64"):
                for dt in ("float32", "int32"):
                    for opset in (18, 10, 8):
                        s.add("revseq/%s/b%ds%d/%s/%s" % (shp(shape), bdim, sdim, ldt, dt), revs(bdim, sdim), [(dyn(shape), dt), ([None], ldt)],
                              [[mixed(shape, dt), np.array(v, ldt)] for v in lens], opset)
    for shape in ([4], [2, 3]):
        for axes in ([0], [1], [0, 1], [-1], [1, 0], [0, 0]):
            if any(a >= len(shape) or a < -len(shape) for a in axes):
                continue
            for shifts in itertools.product((-4, -1, 0, 1, 2, 5), repeat=len(axes)):
                s.add("roll/%s/%s/%s" % (shp(shape), ",".join(map(str, axes)), ",".join(map(str, shifts))),
                      lambda x, sh=shifts, a=axes: R.Roll(input=x, shift=tf.constant(sh), axis=tf.constant(a)), [(dyn(shape), "float32")], [[mixed(shape, "float32")]], 18)
                s.add("rolld/%s/%s/%s" % (shp(shape), ",".join(map(str, axes)), ",".join(map(str, shifts))),
                      lambda x, sh, a=axes: R.Roll(input=x, shift=sh, axis=tf.constant(a)), [(shape, "float32"), ([len(axes)], "int32")], [[mixed(shape, "float32"), np.array(shifts, "int32")]], 12)
    for axis in (0, 1, -1):
        for shifts in (-1, 0, 2):
            s.add("rolls/%d/%d" % (axis, shifts), lambda x, sh=shifts, a=axis: R.Roll(input=x, shift=tf.constant(sh), axis=tf.constant(a)), [([None, 3], "float32")], [[mixed([2, 3], "float32")]], 18)
    for perm in itertools.permutations(range(4)):
        for dt in ("int32", "int64"):
            s.add("invperm/%s/%s" % ("".join(map(str, perm)), dt), lambda x: R.InvertPermutation(x=x), [([None], dt)], [[np.array(perm, dt)]], 18)
    return s.out


def gat(axis, bd):
    return lambda x, i: R.GatherV2(params=x, indices=i, axis=tf.constant(axis, tf.int32), batch_dims=bd)


def gat_const(axis, idx):
    return lambda x: R.GatherV2(params=x, indices=tf.constant(idx), axis=tf.constant(axis, tf.int32))


def scnd(shape, idt):
    return lambda i, u: R.ScatterNd(indices=i, updates=u, shape=tf.constant(shape, idt))


def tsc(op):
    fn = getattr(R, op)
    return lambda x, i, u: fn(tensor=x, indices=i, updates=u)


def oneh(axis, depth, dt, on, off):
    return lambda i: R.OneHot(indices=i, depth=tf.constant(depth), on_value=tf.constant(on, dt), off_value=tf.constant(off, dt), axis=axis)


def topk(k, srt):
    def f(x):
        v, i = R.TopKV2(input=x, k=tf.constant(k), sorted=srt)
        return [v, i] if srt else [tf.sort(v)]
    return f


def uni(op, odt):
    fn = getattr(R, op)
    return lambda x: list(fn(x=x, out_idx=tf.as_dtype(odt)))


def uni_part(op, odt, k):
    fn = getattr(R, op)
    return lambda x: fn(x=x, out_idx=tf.as_dtype(odt))[k]


def stitch(op):
    fn = getattr(R, op)
    return lambda i, j, x, y: fn(indices=[i, j], data=[x, y])


def revs(b, s_):
    return lambda x, n: R.ReverseSequence(input=x, seq_lengths=n, seq_dim=s_, batch_dim=b)
