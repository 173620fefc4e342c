"""C18: the transpose optimizer moves transposes through operators without changing what the graph computes."""
import itertools

import numpy as np
from onnx import TensorProto, helper, numpy_helper

from mc import oxcase
from mc.oxcase import M, Suite, F, I64, I32, B
from mc.tfcase import mixed, ramp

oxcase.define(globals(), "C18",
              "one graph transpose(perm) -> operator -> continuation per point of operator x attributes x permutation x second operand x "
              "continuation x opset; every one is optimized by the transpose optimizer and by the whole pipeline and compared with the "
              "original graph, including the shapes the optimized graph records for every tensor")

TO_NHWC = {3: (0, 2, 1), 4: (0, 2, 3, 1), 5: (0, 2, 3, 4, 1), 2: (1, 0)}
SHAPES = {2: (2, 3), 3: (2, 3, 4), 4: (2, 3, 4, 5), 5: (2, 3, 2, 4, 3)}


def inv(p):
    return [p.index(i) for i in range(len(p))]


def perms(rank, tier, few=False):
    base = TO_NHWC[rank]
    if few:
        return [base, tuple(inv(base))] + ([(0, 3, 2, 1)] if rank == 4 else [])
    if rank == 5 or (rank == 4 and tier == "quick"):
        out = [base, tuple(inv(base))]
        out += {4: [(0, 3, 2, 1), (1, 0, 2, 3), (3, 1, 0, 2), (2, 3, 0, 1), (0, 1, 2, 3)], 5: [(4, 2, 0, 1, 3), (1, 0, 2, 3, 4)]}[rank]
        return out
    return list(itertools.permutations(range(rank)))


CONT = {
    "end": lambda m, t, p: t,                                        # the operator is the graph output
    "id": lambda m, t, p: m.op("Identity", t),
    "back": lambda m, t, p: m.op("Identity", m.op("Transpose", t, perm=inv(p))),
    "same": lambda m, t, p: m.op("Identity", m.op("Transpose", t, perm=list(p))),
    "relu-back": lambda m, t, p: m.op("Identity", m.op("Transpose", m.op("Relu", t), perm=inv(p))),
    "branch": lambda m, t, p: m.op("Add", m.op("Transpose", t, perm=inv(p)), m.op("Transpose", m.op("Neg", t), perm=inv(p))),
    "shape": lambda m, t, p: m.op("Cast", m.op("Shape", t), to=F),
}


class Gen:
    def __init__(self, tier):
        self.S = Suite((["optimize_transpose"], None), recorded=True)
        self.tier = tier

    def add(self, cid, opset, perm, apply, shape=None, cont=("id",), dt=F, outdt=F, npdt=np.float32, modes=("s",), feed=None, extra=None,
            out_rank=None, pre=None, pipes=None, tol=(1e-4, 1e-5), recorded=True):
        """apply(m, t, perm) -> tensor (or list of tensors); the shape is that of the transposed tensor's source"""
        rank = len(perm)
        shape = shape or SHAPES[rank]
        for c in cont:
            for mode in modes:
                def f(c=c, mode=mode):
                    m = M(opset)
                    x = m.inp("x", dt, list(shape) if mode in ("s", "used", "outp") else [None] * rank)
                    if extra:
                        for k, (d, s) in extra.items():
                            m.inp(k, d, list(s))
                    if pre:
                        x = pre(m, x)
                    t = m.op("Transpose", x, perm=list(perm))
                    r = apply(m, t, perm)
                    for k, u in enumerate(r if isinstance(r, (list, tuple)) else [r]):
                        od = outdt[k] if isinstance(outdt, (list, tuple)) else outdt
                        m.out(CONT[c](m, u, perm), od)
                    if mode == "used":
                        m.out(m.op("Neg", t), dt)
                    if mode == "outp":
                        m.out(t, dt)
                    return m
                fd = {"x": mixed(shape, npdt)}
                fd.update(feed or {})
                one = self.tier == "quick" and (tuple(perm) != TO_NHWC[rank] or c not in ("id", "back") or mode != "s")
                self.S.add("%s/o%d/p%s%s%s" % (cid, opset, "".join(map(str, perm)), "" if c == "id" else "/" + c,
                                               "" if mode == "s" else "/" + mode), f, [fd], pipes or ((["optimize_transpose"],) if one else None), tol=tol, recorded=recorded)


def tshape(shape, perm):
    return tuple(shape[p] for p in perm)


def unary(g):
    for op in (9, 13, 18):
        for rank in (2, 3, 4, 5):
            for perm in perms(rank, g.tier):
                for typ in ("Abs", "Elu", "Exp", "Identity", "LeakyRelu", "Neg", "Reciprocal", "Relu", "Selu", "Sigmoid", "Softplus", "Sqrt", "Tanh",
                            "Erf", "Log"):
                    if typ not in ("Relu", "Identity", "LeakyRelu") and (perm not in perms(rank, g.tier, True) or op != 13):
                        continue
                    attrs = {"alpha": 0.3} if typ in ("LeakyRelu", "Elu") else {}
                    full = typ == "Relu" or (typ == "Identity" and op == 13)
                    g.add("unary/%s" % typ, op, perm, lambda m, t, p, typ=typ, attrs=attrs: m.op(typ, t, **attrs),
                          cont=list(CONT) if full else ("id", "back"), modes=("s", "d", "used", "outp") if full else ("s",))
                for to, od in ((TensorProto.DOUBLE, TensorProto.DOUBLE), (I32, I32)):
                    if op == 13:
                        g.add("cast/%d" % to, op, perm, lambda m, t, p, to=to: m.op("Cast", t, to=to), outdt=od, cont=("id", "back"))
                for lo, hi in ((0.0, 2.0), (None, 1.0), (-1.0, None)):
                    def clip(m, t, p, lo=lo, hi=hi):
                        if m.opset < 11:
                            return m.op("Clip", t, min=lo, max=hi)
                        return m.op("Clip", t, m.const(np.float32(lo)) if lo is not None else "", *([m.const(np.float32(hi))] if hi is not None else []))
                    g.add("clip/%s_%s" % (lo, hi), op, perm, clip, cont=("id", "back") if rank > 2 else ("id",))
                g.add("shape", op, perm, lambda m, t, p: m.op("Shape", t), outdt=I64, modes=("s", "d", "used"))
                if op >= 18:
                    for st, en in ((1, None), (0, 2), (-1, None), (None, -1)):
                        g.add("shapesub/%s_%s" % (st, en), op, perm, lambda m, t, p, st=st, en=en: m.op("Shape", t, start=st, end=en), outdt=I64)


def binary(g):
    ops = {"Add": 13, "Sub": 13, "Mul": 13, "Max": 12, "Min": 12, "Sum": 13, "PRelu": 9, "Div": 13, "Pow": 13}
    for typ in ops:
        for op in (9, 13, 18) if typ in ("Add", "Mul", "Sub") else (13,):
            for rank in (3, 4, 5):
                for perm in perms(rank, g.tier):
                    full = perm in perms(rank, g.tier, True)
                    if not full and (typ not in ("Add", "Mul") or op != 13):
                        continue
                    ts = tshape(SHAPES[rank], perm)
                    seconds = []
                    # constants of every broadcastable shape
                    for k in range(rank + 1):
                        for mask in range(1 << k):
                            s = tuple(ts[rank - k + i] if mask >> i & 1 else 1 for i in range(k))
                            if rank == 5 and k not in (0, 1, 5) or (rank == 5 and mask not in (0, 1, 16, 31)):
                                continue
                            if not full and k not in (0, 1, rank):
                                continue
                            seconds.append(("c" + "x".join(map(str, s)), s))
                    for name, s in seconds:
                        for left in (0, 1):
                            if left and (typ == "PRelu" or (g.tier == "quick" and op != 13)):
                                continue
                            if typ not in ("Add", "Mul") and g.tier == "quick" and rank == 3 and left:
                                continue
                            def f(m, t, p, s=s, left=left, typ=typ):
                                c = m.const(np.abs(mixed(s, np.float32, 3)) + np.float32(0.5) if typ in ("Pow", "Div") else mixed(s, np.float32, 3))
                                return m.op(typ, *((c, t) if left else (t, c)))
                            g.add("bin/%s/%s%d" % (typ, name, left), op, perm, f, cont=("id", "back") if full and rank == 4 else ("id",),
                                  modes=("s", "d") if full and op == 13 and rank == 4 and typ in ("Add", "Mul") else ("s",))
                    if not full:
                        continue
                    # run-time second operands: raw, transposed alike, transposed differently, itself, of lower rank, of unknown rank
                    src = SHAPES[rank]
                    for cont in ("id", "back", "same", "relu-back", "branch", "end"):
                        for modes in ("s", "d", "used"):
                            if modes != "s" and cont not in ("id", "back"):
                                continue
                            kw = dict(cont=(cont,), modes=(modes,))
                            g.add("bin/%s/raw" % typ, op, perm, lambda m, t, p, typ=typ: m.op(typ, t, "y"),
                                  extra={"y": (F, ts if modes != "d" else [None] * rank)}, feed={"y": mixed(ts, np.float32, 7)}, **kw)
                            g.add("bin/%s/rawleft" % typ, op, perm, lambda m, t, p, typ=typ: m.op(typ, m.op("Abs", "y"), t),
                                  extra={"y": (F, ts if modes != "d" else [None] * rank)}, feed={"y": mixed(ts, np.float32, 7)}, **kw)
                            g.add("bin/%s/trans" % typ, op, perm, lambda m, t, p, typ=typ: m.op(typ, t, m.op("Transpose", "y", perm=list(p))),
                                  extra={"y": (F, src if modes != "d" else [None] * rank)}, feed={"y": mixed(src, np.float32, 7)}, **kw)
                            g.add("bin/%s/transleft" % typ, op, perm, lambda m, t, p, typ=typ: m.op(typ, m.op("Transpose", "y", perm=list(p)), t),
                                  extra={"y": (F, src if modes != "d" else [None] * rank)}, feed={"y": mixed(src, np.float32, 7)}, **kw)
                            g.add("bin/%s/self" % typ, op, perm, lambda m, t, p, typ=typ: m.op(typ, t, t), **kw)
                            g.add("bin/%s/selfneg" % typ, op, perm, lambda m, t, p, typ=typ: m.op(typ, t, m.op("Sigmoid", t)), **kw)
                            bs = (1,) * rank
                            g.add("bin/%s/transbc" % typ, op, perm, lambda m, t, p, typ=typ: m.op(typ, t, m.op("Transpose", "y", perm=list(p))),
                                  extra={"y": (F, (1, src[1]) + (1,) * (rank - 2))}, feed={"y": mixed((1, src[1]) + (1,) * (rank - 2), np.float32, 7)}, **kw)
                            g.add("bin/%s/low" % typ, op, perm, lambda m, t, p, typ=typ: m.op(typ, t, "y"),
                                  extra={"y": (F, ts[-2:] if modes != "d" else (None, ts[-1]))}, feed={"y": mixed(ts[-2:], np.float32, 7)}, **kw)
                            if typ in ("Add", "Mul", "Sub"):
                                g.add("bin/%s/norank" % typ, op, perm, lambda m, t, p, typ=typ: m.op(typ, t, m.op("Reshape", "y", "ys")),
                                      extra={"y": (F, (None,)), "ys": (I64, (None,))},
                                      feed={"y": mixed((ts[-1] * ts[-2],), np.float32, 7), "ys": np.array(ts[-2:], np.int64)}, **kw)
                                oth = perms(rank, g.tier, True)[-1]
                                osrc = tuple(ts[inv(oth)[i]] for i in range(rank))
                                g.add("bin/%s/othertrans" % typ, op, perm, lambda m, t, p, typ=typ, oth=oth: m.op(typ, t, m.op("Transpose", "y", perm=list(oth))),
                                      extra={"y": (F, osrc)}, feed={"y": mixed(osrc, np.float32, 7)}, **kw)
                                # one constant used by two operators
                                g.add("bin/%s/sharedconst" % typ, op, perm,
                                      lambda m, t, p, typ=typ: (lambda c: m.op(typ, m.op(typ, t, c), c))(m.const(mixed((tshape(SHAPES[len(p)], p)[-1],), np.float32, 3))), **kw)
    # n-ary
    for op in (13,):
        for typ in ("Max", "Min", "Sum"):
            for rank in (3, 4):
                for perm in perms(rank, g.tier, True):
                    ts, src = tshape(SHAPES[rank], perm), SHAPES[rank]
                    kinds = ("t", "y", "c", "c1", "cl", "tt")
                    for combo in itertools.product(kinds, repeat=2):
                        for first in (0, 1):
                            def f(m, t, p, typ=typ, combo=combo, first=first, ts=ts):
                                ins = []
                                for j, k in enumerate(combo):
                                    ins.append({"t": lambda: m.op("Transpose", "z%d" % j, perm=list(p)), "y": lambda: m.op("Transpose", m.op("Transpose", "z%d" % j, perm=list(p)), perm=list(range(len(p)))),
                                                "c": lambda: m.const(mixed(ts, np.float32, j)), "c1": lambda: m.const(np.float32(1.5 + j)),
                                                "cl": lambda: m.const(mixed((1,) * (len(ts) - 1) + ts[-1:], np.float32, j)), "tt": lambda: t}[k]())
                                ins.insert(0 if first else 1, t)
                                return m.op(typ, *ins)
                            ex = {"z%d" % j: (F, src) for j, k in enumerate(combo) if k in "ty"}
                            g.add("nary/%s/%s%d" % (typ, "-".join(combo), first), op, perm, f, cont=("id", "back"), extra=ex,
                                  feed={k: mixed(src, np.float32, 5 + int(k[1])) for k in ex})


def axis_ops(g):
    for rank in (3, 4):
        for perm in perms(rank, g.tier):
            ts = tshape(SHAPES[rank], perm)
            full = perm in perms(rank, g.tier, True)
            for op in (9, 11, 13, 18):
                if not full and op not in (11, 18):
                    continue
                for typ in ("ReduceMean", "ReduceSum", "ReduceMax", "ReduceMin", "ReduceProd", "ReduceSumSquare", "ReduceLogSum", "ReduceLogSumExp", "ReduceL2"):
                    if typ not in ("ReduceMean", "ReduceSum") and (not full or op in (9, 13) and g.tier == "quick" or op == 11 and typ != "ReduceMax"):
                        continue
                    axsets = [None] + [c for k in range(1, rank + 1) for c in itertools.combinations(range(rank), k)]
                    if op >= 11 and typ in ("ReduceMean", "ReduceSum"):
                        axsets += [(-1,), (-1, -2), (1, -1), (2, 0)] + [(-rank,)]
                    elif op >= 11:
                        axsets += [(-2,)]
                    for axes in axsets:
                        if rank == 4 and axes and len(axes) == 3 and not full:
                            continue
                        for kd in (None, 0, 1):
                            if typ not in ("ReduceMean", "ReduceSum") and kd is None:
                                continue
                            g.add("red/%s/%s/kd%s" % (typ, "none" if axes is None else "_".join(map(str, axes)), kd), op, perm,
                                  lambda m, t, p, typ=typ, axes=axes, kd=kd: m.reduce(typ, m.op("Abs", t) if "Log" in typ else t, None if axes is None else list(axes), kd),
                                  cont=("id",) + (("back",) if kd == 1 and full else ()), modes=("s",) + (("d",) if full and typ in ("ReduceMean", "ReduceSum") and op in (11, 18) else ()), tol=(1e-3, 1e-4))
                if op >= 11 or op == 9:
                    for typ in ("ArgMax", "ArgMin"):
                        for axis in list(range(-rank if op >= 11 else 0, rank)) + [None]:
                            for kd in (None, 0, 1):
                                for sl in ((None, 1) if op >= 12 and full else (None,)):
                                    g.add("arg/%s/%s/kd%s/%s" % (typ, axis, kd, sl), op, perm,
                                          lambda m, t, p, typ=typ, axis=axis, kd=kd, sl=sl: m.op(typ, t, axis=axis, keepdims=kd, select_last_index=sl), outdt=I64)
                    for typ in ("Softmax", "LogSoftmax"):
                        for axis in list(range(-rank if op >= 11 else 0, rank)) + [None]:
                            g.add("soft/%s/%s" % (typ, axis), op, perm, lambda m, t, p, typ=typ, axis=axis: m.op(typ, t, axis=axis),
                                  cont=("id", "back") if full else ("id",))
                # slice
                for starts, ends, axes, steps in (((1,), (3,), (1,), None), ((0, 1), (2, 3), (0, 2), None), ((1,), (2,), (-1,), None), ((0, 1), (2, 2), None, None),
                                                  ((1, 0), (4, 2), (2, 1), None), ((-2,), (2 ** 31 - 1,), (2,), None), ((3, -1), (-2 ** 31, -2 ** 31), (1, 2), (-1, -2)),
                                                  ((0, 0, 0), (1, 2, 3), (2, 0, 1), None), ((1,), (9,), (0,), (1,)), ((0,), (9,), (2,), (2,))):
                    if steps and op < 10 or op < 11 and axes and min(axes) < 0:
                        continue
                    g.add("slice/%s/%s/%s/%s" % (starts, ends, axes, steps), op, perm,
                          lambda m, t, p, a=(starts, ends, axes, steps): m.slice(t, *a), cont=("id", "back") if full else ("id",)) if True else None
                    if op in (11, 13) and axes and len(axes) > 1:
                        # the axes constant has a second user
                        def shared(m, t, p, a=(starts, ends, axes, steps)):
                            ax = m.i64(*a[2])
                            r = m.op("Slice", t, m.i64(*a[0]), m.i64(*a[1]), ax, *([m.i64(*a[3])] if a[3] else []))
                            return [r, m.op("Cast", ax, to=F)]
                        g.add("sliceshared/%s/%s" % (starts, axes), op, perm, shared)
                # pad
                for pads in ([(1, 0, 0, 0, 0, 2, 0, 0), (0, 1, 2, 3, 3, 2, 1, 0), (0, -1, 0, 1, 0, 0, -1, 0)] if rank == 4 else [(1, 0, 2, 0, 1, 0), (0, -1, 1, 0, 0, -1)]):
                    for mode, val in ((None, None), ("constant", 2.5), ("reflect", None), ("edge", None)):
                        if mode in ("reflect", "edge") and (min(pads) < 0 or pads[0] or pads[rank] > 1):
                            if mode == "reflect" and (min(pads) < 0 or any(a >= d for a, d in zip(pads, ts)) or any(a >= d for a, d in zip(pads[rank:], ts))):
                                continue
                        g.add("pad/%s/%s%s" % (".".join(map(str, pads)), mode, val or ""), op, perm, lambda m, t, p, pads=pads, mode=mode, val=val: m.pad(t, list(pads), val, mode),
                              cont=("id", "back") if full else ("id",), modes=("s", "d") if full else ("s",))
                    if op >= 11 and full:
                        def sharedpad(m, t, p, pads=pads):
                            c = m.i64(*pads)
                            return [m.op("Pad", t, c), m.op("Cast", c, to=F)]
                        g.add("padshared/%s" % ".".join(map(str, pads)), op, perm, sharedpad)
                        for val in (None, 2.5):
                            g.add("paddyn/%s/%s" % (".".join(map(str, pads)), val), op, perm,
                                  lambda m, t, p, val=val: m.op("Pad", t, "pads", *([m.const(np.float32(val))] if val else [])),
                                  extra={"pads": (I64, (2 * rank,))}, feed={"pads": np.array(pads, np.int64)}, cont=("id", "back"))
                        if op >= 18:
                            for axes in ((1,), (2, 1), (-1, 0)):
                                pp = pads[:len(axes)] + pads[rank:rank + len(axes)]
                                if min(pp) >= 0:
                                    g.add("padaxes/%s/%s" % (".".join(map(str, pp)), axes), op, perm, lambda m, t, p, pp=pp, axes=axes: m.pad(t, list(pp), None, None, list(axes)))
                # split, concat
                for axis in range(-rank if op >= 11 else 0, rank):
                    d = ts[axis]
                    for parts in ([d], [1, d - 1], [d - 1, 1], None):
                        if parts and len(parts) == 2 and d == 2 and parts == [1, 1]:
                            pass
                        if parts is None:
                            if d % 2:
                                continue
                            g.add("split/%d/even" % axis, op, perm, lambda m, t, p, axis=axis: m.split(t, None, axis, 2), cont=("id", "back"), outdt=[F, F])
                        else:
                            g.add("split/%d/%s" % (axis, "_".join(map(str, parts))), op, perm,
                                  lambda m, t, p, parts=parts, axis=axis: m.split(t, parts, axis), cont=("id", "back") if full else ("id",), outdt=[F] * len(parts))
                    if op == 9:
                        continue
                    g.add("concat/tt/%d" % axis, op, perm, lambda m, t, p, axis=axis: m.op("Concat", t, m.op("Transpose", "y", perm=list(p)), axis=axis),
                          extra={"y": (F, SHAPES[rank])}, feed={"y": mixed(SHAPES[rank], np.float32, 5)}, cont=("id", "back"), modes=("s", "d", "used") if full else ("s",))
                    g.add("concat/self/%d" % axis, op, perm, lambda m, t, p, axis=axis: m.op("Concat", t, t, axis=axis), cont=("id", "back"))
                    g.add("concat/tc/%d" % axis, op, perm, lambda m, t, p, axis=axis: m.op("Concat", m.const(mixed(tshape(SHAPES[len(p)], p), np.float32, 9)), t, axis=axis), cont=("id", "back"))
                    g.add("concat/ty/%d" % axis, op, perm, lambda m, t, p, axis=axis: m.op("Concat", t, "y", m.op("Transpose", "z", perm=list(p)), axis=axis),
                          extra={"y": (F, ts), "z": (F, SHAPES[rank])}, feed={"y": mixed(ts, np.float32, 5), "z": mixed(SHAPES[rank], np.float32, 6)}, cont=("id", "back"))
                # tile
                for reps in itertools.product((1, 2), repeat=rank) if full else [(1,) * (rank - 1) + (3,), (2,) + (1,) * (rank - 1)]:
                    g.add("tile/%s" % "".join(map(str, reps)), op, perm, lambda m, t, p, reps=reps: m.op("Tile", t, m.i64(*reps)), cont=("id",))
                if full:
                    g.add("tiledyn", op, perm, lambda m, t, p: m.op("Tile", t, "r"), extra={"r": (I64, (rank,))}, feed={"r": np.array([2, 1, 3, 1][:rank], np.int64)})
                    def stile(m, t, p):
                        c = m.i64(*([2, 1, 3, 1][:len(p)]))
                        return [m.op("Tile", t, c), m.op("Cast", c, to=F)]
                    g.add("tileshared", op, perm, stile)


def rank_ops(g):
    for rank in (2, 3, 4):
        for perm in perms(rank, g.tier) if rank < 4 else perms(4, "thorough") if g.tier == "thorough" else perms(4, "quick"):
            full = perm in perms(rank, g.tier, True)
            for op in (9, 11, 13):
                lo = -1 if op >= 11 else 0
                for k in (1, 2):
                    n = rank + k
                    for axes in itertools.permutations(range(-n if lo else 0, n), k):
                        if len({a % n for a in axes}) < k or (k == 2 and rank == 4 and (min(axes) < 0 or not full)) or (k == 2 and min(axes) < 0 and op == 11):
                            continue
                        g.add("unsq/%s" % "_".join(map(str, axes)), op, perm, lambda m, t, p, axes=axes: m.unsqueeze(t, list(axes)), modes=("s", "d") if k == 1 and full else ("s",))
                # squeeze: dims of size one at every set of positions of the transposed tensor
                for k in range(1, rank):
                    for pos in itertools.combinations(range(rank), k):
                        if k == 3 and not full:
                            continue
                        shape = list(SHAPES[rank])
                        for q in pos:
                            shape[perm[q]] = 1
                        signs = [pos] + ([tuple(q - rank for q in pos)] if op >= 11 else []) + ([pos[::-1]] if k > 1 else []) + \
                            ([(pos[0],) + tuple(q - rank for q in pos[1:])] if op >= 11 and k > 1 else [])
                        for axes in signs:
                            g.add("sq/%s" % "_".join(map(str, axes)), op, perm, lambda m, t, p, axes=axes: m.squeeze(t, list(axes)), shape=tuple(shape),
                                  recorded=list(axes) == sorted(axes),      # onnx infers a wrong shape for unsorted axes
                                  modes=("s", "d", "used") if full and axes == pos else ("s",))
                        if op in (11, 13):
                            g.add("sqall/%s" % "_".join(map(str, pos)), op, perm, lambda m, t, p: m.op("Squeeze", t), shape=tuple(shape))
                            if op == 13:
                                def ssq(m, t, p, pos=pos):
                                    c = m.i64(*pos)
                                    return [m.op("Squeeze", t, c), m.op("Cast", c, to=F)]
                                g.add("sqshared/%s" % "_".join(map(str, pos)), op, perm, ssq, shape=tuple(shape))
                # transposes that move only dims of size one become reshapes
                for ones in range(1 << rank):
                    shape = tuple(1 if ones >> i & 1 else d for i, d in enumerate(SHAPES[rank]))
                    for mode in ("s", "d", "half"):
                        if op != 13 and mode != "s":
                            continue
                        if mode == "half":
                            hs = [d if d == 1 or i == 0 else None for i, d in enumerate(shape)]
                            def half(perm=perm, hs=hs):
                                m = M(13)
                                x = m.inp("x", F, hs)
                                m.out(m.op("Neg", m.op("Transpose", m.op("Abs", x), perm=list(perm))))
                                return m
                            g.S.add("ones/%s/half/p%s" % ("x".join(map(str, shape)), "".join(map(str, perm))), half, [{"x": mixed(shape, np.float32)}])
                        else:
                            g.add("ones/%s" % "x".join(map(str, shape)), op, perm, lambda m, t, p: m.op("Sin", t), shape=shape, modes=(mode,))


def chained(g):
    """pairs of operators behind one transpose, then back: the transpose travels through both"""
    steps = {
        "relu": lambda m, t, p: m.op("Relu", t),
        "addc": lambda m, t, p: m.op("Add", t, m.const(mixed((tshape(SHAPES[4], p)[-1],), np.float32, 2))),
        "addfull": lambda m, t, p: m.op("Add", t, m.const(mixed((1,) + tshape(SHAPES[4], p)[1:], np.float32, 2))),
        "mulc": lambda m, t, p: m.op("Mul", t, m.const(mixed((1, 1, 1, tshape(SHAPES[4], p)[-1]), np.float32, 2))),
        "mulsub": lambda m, t, p: m.op("Mul", m.const(np.float32(1.5)), t),
        "self": lambda m, t, p: m.op("Mul", t, m.op("Sigmoid", t)),
        "max": lambda m, t, p: m.op("Max", t, m.const(np.float32(0.25))),
        "mean": lambda m, t, p: m.op("Sub", t, m.reduce("ReduceMean", t, [1, 2], 1)),
        "rsum": lambda m, t, p: m.op("Sub", t, m.reduce("ReduceSum", t, [-1], 1)),
        "pad": lambda m, t, p: m.slice(m.pad(t, [0, 1, 0, 0, 0, 0, 2, 0]), [1, 0], [100, -2], [1, 2]),
        "soft": lambda m, t, p: m.op("Softmax", t, axis=-1 if m.opset >= 11 else 3),
        "cat": lambda m, t, p: m.slice(m.op("Concat", t, m.op("Neg", t), axis=3), [2], [2 + tshape(SHAPES[4], p)[-1]], [3]),
        "sq": lambda m, t, p: m.squeeze(m.unsqueeze(t, [2]), [2]),
        "id": lambda m, t, p: m.op("Identity", t),
        "shape": lambda m, t, p: m.op("Reshape", m.op("Reshape", t, m.i64(-1)), m.op("Shape", t)),
        "prelu": lambda m, t, p: m.op("PRelu", t, m.const(np.abs(mixed((1, 1, tshape(SHAPES[4], p)[-1]), np.float32, 2)))),
        "clip": lambda m, t, p: m.op("Clip", t, m.const(np.float32(-1)), m.const(np.float32(2))) if m.opset >= 11 else m.op("Clip", t, min=-1.0, max=2.0),
        "cast": lambda m, t, p: m.op("Cast", m.op("Cast", t, to=TensorProto.DOUBLE), to=F),
        "split": lambda m, t, p: (lambda r: m.op("Concat", r[1], r[0], axis=1))(m.split(t, [1, tshape(SHAPES[4], p)[1] - 1], 1)),
        "tile": lambda m, t, p: m.slice(m.op("Tile", t, m.i64(1, 1, 2, 1)), [1], [1 + tshape(SHAPES[4], p)[2]], [2]),
    }
    ps = perms(4, g.tier, True)
    for op in (9, 13, 18):
        for perm in ps if g.tier == "thorough" or op == 13 else ps[:1]:
            for a, b in itertools.product(steps, repeat=2):
                if op == 9 and "prelu" in (a, b):
                    continue
                for mode in ("s", "d"):
                    if mode == "d" and op != 13 or (g.tier == "quick" and mode == "d" and perm != ps[0]):
                        continue
                    g.add("chain/%s-%s" % (a, b), op, perm, lambda m, t, p, a=a, b=b: steps[b](m, steps[a](m, t, p), p), cont=("back",), modes=(mode,), pipes=(None,))
    # residual / multi-branch graphs
    for op in (13,):
        for perm in ps:
            for a, b in itertools.product(list(steps), repeat=2):
                if g.tier == "quick" and perm != ps[0]:
                    continue
                g.add("resid/%s-%s" % (a, b), op, perm, lambda m, t, p, a=a, b=b: m.op("Add", steps[a](m, t, p), steps[b](m, t, p)), cont=("back",), pipes=(None,))


def convs(g):
    """conv in NCHW, transpose to NHWC, then bias / scale: the constants are folded into the convolution"""
    for op in (9, 13, 18):
        for bias in (False, True):
            for typ, shapes in (("Add", ((4,), (1, 4), (1, 1, 1, 4), (1,), (), (1, 1, 3, 1), (1, 3, 1, 1), (2, 3, 3, 4), (1, 1, 3, 4), (3, 1), (3, 1, 1))),
                                ("Mul", ((4,), (1, 4), (1, 1, 1, 4), (1,), (), (1, 1, 3, 1), (2, 3, 3, 4), (3, 1), (1, 3, 1, 1)))):
                for cs in shapes:
                    for left in (0, 1):
                        for group in (1, 2):
                            for used in ("", "convused", "wshared", "cshared", "transused"):
                                for kind in ("Conv", "ConvTranspose"):
                                    for cout in (4, 3):
                                        if cout == 3 and (group != 1 or 4 in cs or used):
                                            continue
                                        if (group == 2 or kind == "ConvTranspose") and used and g.tier == "quick":
                                            continue
                                        if op != 13 and used and g.tier == "quick":
                                            continue
                                        def f(op=op, bias=bias, typ=typ, cs=cs, left=left, group=group, used=used, kind=kind, cout=cout):
                                            m = M(op)
                                            x = m.inp("x", F, [2, 4, 5, 5] if kind == "Conv" else [2, 4, 2, 2])
                                            w = m.const(mixed((cout, 4 // group, 3, 3) if kind == "Conv" else (4, cout // group, 2, 2), np.float32, 1))
                                            c = m.op(kind, x, w, *([m.const(mixed((cout,), np.float32, 2))] if bias else []), group=group)
                                            t = m.op("Transpose", c, perm=[0, 2, 3, 1])
                                            k = m.const(mixed(cs, np.float32, 3))
                                            r = m.op(typ, *((k, t) if left else (t, k)))
                                            m.out(m.op("Relu", r))
                                            if used == "convused":
                                                m.out(m.op("Neg", c))
                                            if used == "wshared":
                                                m.out(m.op("Neg", m.op("Conv", x, w, group=group, pads=[1, 1, 1, 1])))
                                            if used == "cshared":
                                                m.out(m.op("Neg", k))
                                            if used == "transused":
                                                m.out(m.op("Neg", t))
                                            return m
                                        shape = (2, 4, 5, 5) if kind == "Conv" else (2, 4, 2, 2)
                                        g.S.add("conv/%s/o%d/%s/%s/%d/b%d/g%d/c%d/%s" % (kind, op, typ, "x".join(map(str, cs)), left, bias, group, cout, used or "-"), f,
                                                [{"x": mixed(shape, np.float32)}], (["optimize_transpose"],) + ((None,) if not used else ()), tol=(1e-3, 1e-4))


def quant(g):
    for op in (10, 13):
        for perm in perms(4, g.tier, True):
            ts = tshape(SHAPES[4], perm)
            for axis in ([None] if op < 13 else [None, 0, 1, 2, 3, -1, -2]):
                n = 1 if axis is None else ts[axis]
                sc = (np.arange(n) + 1).astype(np.float32) * np.float32(0.05)
                zp = (np.arange(n) % 3 + 10).astype(np.uint8)
                if axis is None:
                    sc, zp = sc[0], zp[0]
                kw = {} if axis is None else {"axis": axis}
                U8 = TensorProto.UINT8
                g.add("q/%s" % axis, op, perm, lambda m, t, p, sc=sc, zp=zp, kw=kw: m.op("QuantizeLinear", t, m.const(sc), m.const(zp), **kw), outdt=U8, cont=("id", "back"))
                g.add("qdq/%s" % axis, op, perm, lambda m, t, p, sc=sc, zp=zp, kw=kw: m.op("Relu", m.op("DequantizeLinear", m.op("QuantizeLinear", t, m.const(sc), m.const(zp), **kw), m.const(sc), m.const(zp), **kw)),
                      cont=("id", "back", "relu-back"))
                g.add("dq/%s" % axis, op, perm, lambda m, t, p, sc=sc, zp=zp, kw=kw: m.op("Abs", m.op("DequantizeLinear", t, m.const(sc), m.const(zp), **kw)),
                      dt=U8, npdt=np.uint8, cont=("id", "back"))


def branches(g):
    """transposes next to and inside If / Loop bodies"""
    for op in (11, 13):
        for perm in perms(4, "thorough" if g.tier == "thorough" else "quick"):
            for where in ("outer", "inner", "both", "innerinput", "through"):
                for cont in ("back", "relu-back", "id"):
                    def f(op=op, perm=perm, where=where, cont=cont):
                        m = M(op)
                        x = m.inp("x", F, SHAPES[4])
                        p = m.inp("p", B, [])
                        t = m.op("Transpose", x, perm=list(perm)) if where in ("outer", "both", "innerinput") else m.op("Neg", x)
                        gs = []
                        for k in (0, 1):
                            b = M(op, prefix="b%d_" % k)
                            u = t
                            if where in ("inner", "through"):
                                u = b.op("Transpose", t, perm=list(perm))
                            u = b.op("Relu" if k else "Abs", u)
                            if where in ("both", "innerinput"):
                                u = b.op("Transpose", u, perm=inv(perm))
                            if where == "through":
                                u = b.op("Transpose", u, perm=inv(perm))
                            b.out(u, F, [None] * 4)
                            gs.append(b.graph("b%d" % k))
                        m.nodes.append(helper.make_node("If", [p], ["r"], name="if", then_branch=gs[0], else_branch=gs[1]))
                        m.out(CONT[cont](m, "r", perm))
                        if where == "both":
                            m.out(m.op("Transpose", m.op("Neg", t), perm=inv(perm)))
                        return m
                    g.S.add("if/%s/%s/o%d/p%s" % (where, cont, op, "".join(map(str, perm))), f,
                            [{"x": mixed(SHAPES[4], np.float32), "p": np.array(v)} for v in (True, False)])


def cases(tier):
    g = Gen(tier)
    for fam in (unary, binary, axis_ops, rank_ops, chained, convs, quant, branches):
        fam(g)
    out = g.S.out
    for c in out:
        c.id = c.id.replace(" ", "")
    return out
