"""C02: reductions, arg-reductions, cumulative and segment ops."""
import itertools

import numpy as np
import tensorflow as tf

from mc import tfcase
from mc.tfcase import Suite, dyn, mixed, shp

tfcase.define(globals(), "C02")
R = tf.raw_ops


def axes_sets(rank):
    out = [[]]
    for r in range(1, rank + 1):
        out.extend(list(c) for c in itertools.combinations(range(rank), r))
    return out


def red(op, axes, keep, scalar=False, adt="int32"):
    fn = getattr(R, op)
    ax = np.array(axes[0] if scalar else axes, adt)
    return lambda x: fn(input=x, axis=tf.constant(ax), keep_dims=keep)


def red_dyn(op, keep):
    fn = getattr(R, op)
    return lambda x, ax: fn(input=x, axis=ax, keep_dims=keep)


def arg(op, axis, odt, adt="int32"):
    fn = getattr(R, op)
    return lambda x: fn(input=x, dimension=tf.constant(axis, adt), output_type=tf.as_dtype(odt))


def cum(op, axis, exclusive, reverse):
    fn = getattr(R, op)
    return lambda x: fn(x=x, axis=tf.constant(axis, tf.int32), exclusive=exclusive, reverse=reverse)


def cum_dyn(op, exclusive, reverse):
    fn = getattr(R, op)
    return lambda x, a: fn(x=x, axis=a, exclusive=exclusive, reverse=reverse)


def cases(tier):
    s = Suite()
    thorough = tier == "thorough"
    opsets = [18, 15, 12] if not thorough else list(range(18, 8, -1))
    shapes = [[], [4], [2, 3], [3, 1, 2], [1, 2, 3, 2]]
    for op in ("Sum", "Mean", "Max", "Min", "Prod", "All", "Any"):
        dts = ["bool"] if op in ("All", "Any") else ["float32", "int32"] + (["int64", "float64"])
        for dt in dts:
            for shape in shapes:
                rank = len(shape)
                if op == "Mean" and dt.startswith("int"):
                    pass
                for axes in axes_sets(rank):
                    if rank == 4 and dt not in ("float32", "bool"):
                        continue
                    negs = {tuple(axes), tuple(a - rank for a in axes)}
                    if len(axes) >= 2:
                        negs.add(tuple([axes[0]] + [a - rank for a in axes[1:]]))
                        negs.add(tuple(reversed(axes)))
                    for ax in sorted(negs):
                        for keep in (False, True):
                            for opset in opsets:
                                if opset != 18 and (dt in ("int64", "float64") or rank == 4):
                                    continue
                                for mode in ("static", "dyn"):
                                    feeds = [[mixed(shape, dt, k)] for k in (0, 2)]
                                    ishape = shape if mode == "static" else dyn(shape)
                                    s.add("red/%s/%s/%s/a%s/k%d/%s" % (op, dt, shp(shape), ",".join(map(str, ax)), keep, mode),
                                          red(op, list(ax), keep), [(ishape, dt)], feeds, opset)
                                    if len(ax) == 1:
                                        s.add("reds/%s/%s/%s/a%s/k%d/%s" % (op, dt, shp(shape), ax[0], keep, mode),
                                              red(op, list(ax), keep, scalar=True, adt="int64" if keep else "int32"),
                                              [(ishape, dt)], feeds, opset)
        for dt in dts[:2]:
            for opset in opsets:
                for keep in (False, True):
                    # axes known only at run time, and unknown input rank
                    s.add("reddyn/%s/%s/k%d" % (op, dt, keep), red_dyn(op, keep), [([None, None, None], dt), ([None], "int32")],
                          [[mixed([2, 3, 2], dt, 1), np.array(a, np.int32)] for a in ([0], [-1], [0, 2], [1, 2], [0, 1, 2])], opset)
                    s.add("reddyns/%s/%s/k%d" % (op, dt, keep), red_dyn(op, keep), [([None, None], dt), ([], "int32")],
                          [[mixed([2, 3], dt, 1), np.array(a, np.int32)] for a in (0, 1, -1, -2)], opset)
                    for ax in ([0], [1], [0, 1], [-1]):
                        s.add("redur/%s/%s/k%d/a%s" % (op, dt, keep, ",".join(map(str, ax))), red(op, ax, keep), [(None, dt)],
                              [[mixed([2, 3], dt, 1)], [mixed([2, 3, 2], dt, 1)]], opset)
                    s.add("redempty/%s/%s/k%d" % (op, dt, keep), red(op, [0], keep), [([None, 2], dt)],
                          [[mixed([3, 2], dt, 1)]] + ([[mixed([0, 2], dt)]] if op in ("Sum", "All", "Any", "Prod") else []), opset)
    for op in ("ArgMax", "ArgMin"):
        for dt in ("float32", "int32", "float64", "int64"):
            for shape in ([4], [2, 3], [3, 1, 2]):
                for axis in range(-len(shape), len(shape)):
                    for odt in ("int32", "int64"):
                        for opset in opsets:
                            for mode in ("static", "dyn"):
                                ties = np.round(mixed(shape, "float32", 1) / 3).astype(dt)
                                s.add("arg/%s/%s/%s/a%d/%s/%s" % (op, dt, shp(shape), axis, odt, mode), arg(op, axis, odt),
                                      [(shape if mode == "static" else dyn(shape), dt)], [[mixed(shape, dt)], [ties]], opset)
    # every vector of length 4 over {0,1,2}: first/last index on ties
    allv = np.array(list(itertools.product([0, 1, 2], repeat=4)), np.float32)
    for op in ("ArgMax", "ArgMin"):
        for opset in opsets:
            for odt in ("int32", "int64"):
                for dt in ("float32", "int32"):
                    s.add("argties/%s/%s/%s" % (op, odt, dt), arg(op, 1, odt), [([None, None], dt)], [[allv.astype(dt)]], opset)
                    s.add("argtiesneg/%s/%s/%s" % (op, odt, dt), arg(op, -1, odt), [([None, None], dt)], [[allv.astype(dt)]], opset)
    for op in ("Cumsum", "Cumprod"):
        for dt in ("float32", "int32", "int64", "float64"):
            for shape in ([4], [2, 3], [2, 1, 3], [1, 1]):
                for axis in range(-len(shape), len(shape)):
                    for ex, rev in itertools.product((False, True), repeat=2):
                        for opset in opsets:
                            if op == "Cumprod" and opset not in (18, 13, 15) and not thorough:
                                continue
                            for mode in ("static", "dyn"):
                                s.add("cum/%s/%s/%s/a%d/e%dr%d/%s" % (op, dt, shp(shape), axis, ex, rev, mode), cum(op, axis, ex, rev),
                                      [(shape if mode == "static" else dyn(shape), dt)], [[mixed(shape, dt)], [mixed(shape, dt, 3)]], opset)
        for ex, rev in itertools.product((False, True), repeat=2):
            s.add("cumdyn/%s/e%dr%d" % (op, ex, rev), cum_dyn(op, ex, rev), [([None, 3], "float32"), ([], "int32")],
                  [[mixed([2, 3], "float32"), np.array(a, np.int32)] for a in (0, 1, -1)], 18)
    # segment ops: every sorted id vector / every id vector up to length 4 over 3 segments
    for n in range(1, 5 if not thorough else 6):
        ids_sorted = [v for v in itertools.combinations_with_replacement(range(3), n)]
        for op in ("SegmentSum", "SegmentMax", "SegmentMin", "SegmentProd", "SegmentMean"):
            for dt in ("float32", "int32"):
                for opset in (18, 13, 11):
                    for tail in ([], [2]):
                        ids = [v for v in ids_sorted]
                        feeds = [[mixed([n] + tail, dt, k), np.array(v, np.int32)] for k, v in enumerate(ids)]
                        # max/min/prod of an empty segment: TF fills 0 (1 for prod)
                        full = [f for f, v in zip(feeds, ids) if set(v) == set(range(max(v) + 1))]
                        gap = [f for f, v in zip(feeds, ids) if set(v) != set(range(max(v) + 1))]
                        s.add("seg/%s/%s/n%d/%s/full" % (op, dt, n, shp(tail)), seg(op), [([None] + tail, dt), ([None], "int32")], full, opset)
                        s.add("seg/%s/%s/n%d/%s/gap" % (op, dt, n, shp(tail)), seg(op), [([None] + tail, dt), ([None], "int32")], gap, opset)
        for op in ("UnsortedSegmentSum", "UnsortedSegmentMax", "UnsortedSegmentMin", "UnsortedSegmentProd"):
            for dt in ("float32", "int32", "int64"):
                for idt in ("int32", "int64"):
                    for tail in ([], [2]):
                        ids = list(itertools.product(range(3), repeat=n))
                        if n == 4:
                            ids = ids[::3] if not thorough else ids
                        feeds = [[mixed([n] + tail, dt, k), np.array(v, idt)] for k, v in enumerate(ids)]
                        full = [f for f, v in zip(feeds, ids) if set(v) == {0, 1, 2}]
                        rest = [f for f, v in zip(feeds, ids) if set(v) != {0, 1, 2}]
                        for nm, fs in (("full", full), ("empty", rest)):
                            if not fs:
                                continue
                            s.add("useg/%s/%s/%s/n%d/%s/%s/const" % (op, dt, idt, n, shp(tail), nm), useg(op, 3),
                                  [([None] + tail, dt), ([None], idt)], fs, 18)
                        s.add("useg/%s/%s/%s/n%d/%s/dyn" % (op, dt, idt, n, shp(tail)), useg_dyn(op),
                              [([None] + tail, dt), ([None], idt), ([], "int32")],
                              [f + [np.array(max(int(f[1].max()) + 1, 1), np.int32)] for f in feeds
                               if set(f[1].tolist()) == set(range(int(f[1].max()) + 1))], 18)
        for op in ("SparseSegmentSum", "SparseSegmentMean", "SparseSegmentSqrtN"):
            for tail in ([2], []):
                feeds = []
                for v in ids_sorted:
                    for perm in itertools.product(range(3), repeat=min(n, 2)):
                        idx = (list(perm) * n)[:n]
                        feeds.append([mixed([3] + tail, "float32", 1), np.array(idx, np.int32), np.array(v, np.int32)])
                full = [f for f in feeds if set(f[2].tolist()) == set(range(int(f[2].max()) + 1))]
                gap = [f for f in feeds if set(f[2].tolist()) != set(range(int(f[2].max()) + 1))]
                for opset in (18, 11):
                    s.add("sseg/%s/n%d/%s/full" % (op, n, shp(tail)), sseg(op), [([None] + tail, "float32"), ([None], "int32"), ([None], "int32")], full, opset)
                    s.add("sseg/%s/n%d/%s/gap" % (op, n, shp(tail)), sseg(op), [([None] + tail, "float32"), ([None], "int32"), ([None], "int32")], gap, opset)
                    s.add("sseg/%sWNS/n%d/%s" % (op, n, shp(tail)), sseg_n(op + "WithNumSegments", 3),
                          [([None] + tail, "float32"), ([None], "int32"), ([None], "int32")], feeds, opset)
    for size in (1, 3, 5):
        for binary in (False, True):
            for dt in ("int32", "int64"):
                feeds = [[np.array(v, dt)] for v in ([0, 1, 1], [2, 2, 0, 1], [0], [], [1, 4, 4, 0], [7, 1])]
                feeds2 = [[np.array(v, dt)] for v in ([[0, 1, 1], [2, 0, 2]], [[4, 4, 7], [1, 1, 1]], [[0, 0, 0]], [[2], [2], [0]])]
                s.add("bincount2/DenseBincount/%s/s%d/b%d" % (dt, size, binary), dbin(size, binary, dt), [([None, None], dt)], feeds2, 18)
                s.add("bincount2/DenseBincount/%s/s%d/b%d" % (dt, size, binary), dbin(size, binary, dt), [([None, None], dt)], feeds2, 12)
                s.add("bincount/DenseBincount/%s/s%d/b%d" % (dt, size, binary), dbin(size, binary, dt), [([None], dt)], feeds, 18)
            s.add("bincount/Bincount/s%d" % size, lambda x, n=size: R.Bincount(arr=x, size=n, weights=tf.constant([], tf.float32)),
                  [([None], "int32")], [[np.array(v, "int32")] for v in ([0, 1, 1], [2, 2, 0, 1], [0], [1, 4, 4, 0])], 18)
    s.add("bincount/tfmath", lambda x: tf.math.bincount(x), [([None], "int32")], [[np.array(v, "int32")] for v in ([0, 1, 1], [2, 2, 0], [3])], 18)
    for name in ("reduce_std", "reduce_variance", "reduce_logsumexp", "reduce_euclidean_norm"):
        for ax in (None, 0, 1, [0, 1]):
            for keep in (False, True):
                s.add("tfmath/%s/%s/k%d" % (name, ax if not isinstance(ax, list) else "01", keep),
                      lambda x, f=getattr(tf.math, name), a=ax, k=keep: f(x, axis=a, keepdims=k), [([None, 3], "float32")],
                      [[mixed([2, 3], "float32")], [mixed([1, 3], "float32")]], 18)
    return s.out


def seg(op):
    fn = getattr(R, op)
    return lambda x, i: fn(data=x, segment_ids=i)


def useg(op, n):
    fn = getattr(R, op)
    return lambda x, i: fn(data=x, segment_ids=i, num_segments=tf.constant(n, tf.int32))


def useg_dyn(op):
    fn = getattr(R, op)
    return lambda x, i, n: fn(data=x, segment_ids=i, num_segments=n)


def sseg(op):
    fn = getattr(R, op)
    return lambda x, j, i: fn(data=x, indices=j, segment_ids=i)


def sseg_n(op, n):
    fn = getattr(R, op)
    return lambda x, j, i: fn(data=x, indices=j, segment_ids=i, num_segments=tf.constant(n, tf.int32))


def dbin(size, binary, dt):
    return lambda x: R.DenseBincount(input=x, size=tf.constant(size, dt), weights=tf.constant([], tf.float32), binary_output=binary)
