"""C17: the optimizers leave the function of a graph unchanged (all of them but the transpose and einsum ones)."""
import itertools

import numpy as np
from onnx import TensorProto, helper, numpy_helper

from mc import oxcase
from mc.oxcase import M, Suite, F, I64, I32, B
from mc.tfcase import mixed, ramp

oxcase.define(globals(), "C17",
              "one ONNX graph per point of the bounded space of node chains, branches, attributes, constants and graph outputs; each is "
              "optimized by the single optimizer concerned and by the whole pipeline and compared with the original graph on its feeds; "
              "non-trivial and distinct = distinct optimized op sequences")

DT = {"f16": TensorProto.FLOAT16, "f32": F, "f64": TensorProto.DOUBLE, "i8": TensorProto.INT8, "u8": TensorProto.UINT8,
      "i16": TensorProto.INT16, "i32": I32, "i64": I64, "bool": B}
NP = {"f16": np.float16, "f32": np.float32, "f64": np.float64, "i8": np.int8, "u8": np.uint8, "i16": np.int16,
      "i32": np.int32, "i64": np.int64, "bool": np.bool_}


# -------------------------------------------------------------------------------------------- casts
def casts(S, tier):
    vals = np.array([0, 1, 2.5, 100.75, 0.25, 127, 7, 64.5], np.float64)
    kinds = list(DT)

    def feed(src, signed):
        v = vals.copy()
        if signed:
            v[2], v[6] = -2.5, -7
        if src == "bool":
            v = v > 1
        return {"x": v.astype(NP[src])}

    def build(src, chain, shape, branch, mid_out):
        def f():
            m = M(13)
            t = m.inp("x", DT[src], shape)
            ts = []
            for k in chain:
                t = m.op("Cast", t, to=DT[k])
                ts.append(t)
            if branch:
                m.out(m.op("Identity", m.op("Cast", ts[0], to=DT[branch])), DT[branch])
            if mid_out:
                m.out(ts[0], DT[chain[0]])
            m.out(m.op("Identity", t), DT[chain[-1]])
            return m
        return f
    pipes = (["remove_back_to_back"],)
    unsigned = ("u8",)
    for src in kinds:
        for n in (2, 3):
            for chain in itertools.product(kinds, repeat=n):
                if n == 3 and tier == "quick" and (len(set(chain)) < 2 or any(k in ("f16", "i16", "i8") for k in chain)
                                                   or src in ("f16", "i16", "i8")):
                    continue
                # onnxruntime itself rewrites float -> int -> (float ->) bool: no reference
                path = [k for k in (src,) + chain if k[0] != "f" or k == src]
                if src[0] == "f" and "bool" in path and any(k[0] in "iu" for k in path[:path.index("bool")]):
                    continue
                signed = not any(k in unsigned for k in (src,) + chain) and src != "bool"
                S.add("cast/%s/%s" % (src, "-".join(chain)), build(src, chain, [8], None, False), [feed(src, signed)], pipes)
                if n == 2:
                    S.add("cast/%s/%s/out" % (src, "-".join(chain)), build(src, chain, [8], None, True), [feed(src, signed)], pipes)
                    for br in (kinds if tier == "thorough" else ("f32", "bool", "i64")):
                        S.add("cast/%s/%s/br-%s" % (src, "-".join(chain), br),
                              build(src, chain, [8], br, False), [feed(src, signed and br != "u8")], pipes)


# -------------------------------------------------------------------------------------------- transposes / squeeze pairs
def transposes(S, tier):
    def build(shape, p1, p2s, mid_out, last_out):
        def f():
            m = M(13)
            x = m.inp("x", F, shape)
            a = m.op("Transpose", m.op("Relu", x), perm=p1)
            for p2 in p2s:
                b = m.op("Transpose", a, perm=p2)
                m.out(b if last_out else m.op("Neg", b))
            if mid_out:
                m.out(a)
            return m
        return f
    for shape in ([2, 3, 4], [2, 3, 4, 5]) if tier == "thorough" else ([2, 3, 4],):
        perms = list(itertools.permutations(range(len(shape))))
        for p1 in perms:
            for p2 in perms:
                for mo, lo in itertools.product((0, 1), (0, 1)):
                    S.add("tt/%s/%s-%s/%d%d" % (len(shape), "".join(map(str, p1)), "".join(map(str, p2)), mo, lo),
                          build(shape, p1, [p2], mo, lo), [{"x": mixed(shape, np.float32)}], (["remove_back_to_back"],))
                if len(shape) == 3:
                    for p3 in perms:
                        S.add("ttt/%s-%s-%s" % tuple("".join(map(str, p)) for p in (p1, p2, p3)),
                              build(shape, p1, [p2, p3], 0, (p1[0] + p2[0]) % 2), [{"x": mixed(shape, np.float32)}],
                              (["remove_back_to_back"],))
    shape = [2, 3, 4, 5]
    perms = list(itertools.permutations(range(4)))
    for p1 in perms:
        for p2 in perms:
            S.add("tt4/%s-%s" % tuple("".join(map(str, p)) for p in (p1, p2)), build(shape, p1, [p2], 0, 0),
                  [{"x": mixed(shape, np.float32)}], (["remove_back_to_back"],))


def squeezes(S, tier):
    def build(op, shape, ax1, ax2, order, shared, lastout, second):
        def f():
            m = M(op)
            x = m.inp("x", F, shape)
            r = m.op("Neg", x)
            if shared and op >= 13:
                c = m.i64(*ax1)
                a = m.op(order[0], r, c)
                b = m.op(order[1], a, c)
            else:
                a = m.squeeze(r, ax1) if order[0] == "Squeeze" else m.unsqueeze(r, ax1)
                b = m.squeeze(a, ax2) if order[1] == "Squeeze" else m.unsqueeze(a, ax2)
            if second:
                m.out(m.op("Abs", a))
            m.out(b if lastout else m.op("Neg", b))
            return m
        return f
    shape = [1, 3, 1, 1]
    sub = [list(c) for n in (1, 2, 3) for c in itertools.permutations((0, 2, 3, -1, -2, -4), n)
           if len({i % 4 for i in c}) == n]
    if tier == "quick":
        sub = [s for s in sub if len(s) < 3]
    for op in (11, 13, 18):
        for a1 in sub:
            for a2 in sub:
                if len(a1) != len(a2):
                    continue
                for lo, sec in ((0, 0), (1, 0), (0, 1)):
                    if (lo or sec) and (len(a1) > 1 and tier == "quick"):
                        continue
                    S.add("su/o%d/%s_%s/%d%d" % (op, "".join(map(str, a1)), "".join(map(str, a2)), lo, sec),
                          build(op, shape, a1, a2, ("Squeeze", "Unsqueeze"), False, lo, sec),
                          [{"x": mixed(shape, np.float32)}], (["remove_back_to_back"],))
            S.add("su/o%d/%s/shared" % (op, "".join(map(str, a1))), build(op, shape, a1, a1, ("Squeeze", "Unsqueeze"), True, 0, 0),
                  [{"x": mixed(shape, np.float32)}], (["remove_back_to_back"],))
            S.add("us/o%d/%s" % (op, "".join(map(str, a1))), build(op, [3, 1, 2], a1, a1, ("Unsqueeze", "Squeeze"), False, 0, 0),
                  [{"x": mixed((3, 1, 2), np.float32)}], (["remove_back_to_back"],))
        for inner in (0, 1):       # squeeze without axes
            def f(op=op, inner=inner):
                m = M(op)
                r = m.op("Neg", m.inp("x", F, [1, 3, 1]))
                a = m.op("Squeeze", r)
                b = m.unsqueeze(a, [0])
                m.out(m.op("Neg", b))
                return m
            S.add("su/o%d/noaxes%d" % (op, inner), f, [{"x": mixed((1, 3, 1), np.float32)}], (["remove_back_to_back"], None))


def reshapes(S, tier):
    def build(op, xs, s1, s2, mid_out, last_out, az=None):
        def f():
            m = M(op)
            x = m.inp("x", F, xs)
            a = m.op("Reshape", m.op("Neg", x), m.i64(*s1))
            b = m.op("Reshape", a, m.i64(*s2), allowzero=az)
            if mid_out:
                m.out(a)
            m.out(b if last_out else m.op("Neg", b))
            return m
        return f
    shapes1 = [(6, 4), (4, 6), (2, 12), (2, 3, 4), (24,), (-1,), (0, -1), (-1, 4), (4, 3, 2), (1, 24), (0, 0, 4), (3, 0, 4) if False else (2, 0, -1)]
    shapes2 = shapes1 + [(0, 0), (0, -1, 2), (-1, 0), (0,), (0, 1, -1), (0, 0, 0)]
    for op in (13, 18):
        for xs, v in (([2, 3, 4], (2, 3, 4)), ([None, None, None], (2, 3, 4))):
            for s1 in shapes1:
                for s2 in shapes2:
                    for mo, lo in ((0, 0), (0, 1), (1, 0)) if op == 13 else ((0, 0),):
                        S.add("rr/o%d/%s/%s_%s/%d%d" % (op, "s" if xs[0] else "d", ".".join(map(str, s1)), ".".join(map(str, s2)), mo, lo),
                              build(op, xs, s1, s2, mo, lo), [{"x": mixed(v, np.float32)}], (["remove_back_to_back"],))
    for s1 in ((0, 3), (3, 0), (0, -1), (0,)):
        for s2 in ((0, 2), (2, 0), (0, 5, 1), (0,)):
            S.add("rraz/%s_%s" % (".".join(map(str, s1)), ".".join(map(str, s2))), build(18, [0, 3], s1, s2, 0, 0, 1),
                  [{"x": np.zeros((0, 3), np.float32)}], (["remove_back_to_back"], None))


# -------------------------------------------------------------------------------------------- conv + batchnorm
def convbn(S, tier):
    def build(op, wshape, bias, group, eps, conv_used, bn_out, bnconst, dt=F):
        def f():
            m = M(op)
            cin = wshape[1] * group
            npd = np.float32 if dt == F else np.float64
            x = m.inp("x", dt, [2, cin] + [5] * (len(wshape) - 2))
            w = m.const(mixed(wshape, npd, 1))
            a = [x, w]
            if bias == "const":
                a.append(m.const(mixed((wshape[0],), npd, 2)))
            elif bias == "input":
                a.append(m.inp("b", dt, [wshape[0]]))
            c = m.op("Conv", *a, group=group, kernel_shape=list(wshape[2:]))
            n = wshape[0]
            ps = [mixed((n,), npd, 3), mixed((n,), npd, 4), mixed((n,), npd, 5), np.abs(mixed((n,), npd, 6)) + npd(0.5)]
            ps = [m.const(p) for p in ps]
            if bnconst == "input":
                ps[0] = m.inp("s", dt, [n])
            kw = {} if eps is None else {"epsilon": eps}
            bn = m.op("BatchNormalization", c, *ps, **kw)
            if conv_used == "used":
                m.out(m.op("Neg", c), dt)
            elif conv_used == "out":
                m.out(c, dt)
            elif conv_used == "twice":
                m.out(m.op("Neg", m.op("BatchNormalization", c, *ps, **kw)), dt)
            m.out(bn if bn_out else m.op("Neg", bn), dt)
            return m
        return f
    for op in (9, 13, 18):
        for wshape in ((4, 3, 3, 3), (4, 2, 1, 2), (4, 3, 3), (2, 3, 2, 2, 2), (3, 3, 3, 3)):
            for group in (1, 2):
                if wshape[0] % group or group == 2 and wshape[0] == 3:
                    continue
                for bias in ("none", "const", "input"):
                    for eps in (None, 0.001, 0.5):
                        for cu, bo in (("no", 0), ("used", 0), ("out", 0), ("twice", 0), ("no", 1)):
                            if eps is None and cu != "no":
                                continue
                            shape = (2, wshape[1] * group) + (5,) * (len(wshape) - 2)
                            fd = {"x": mixed(shape, np.float32)}
                            if bias == "input":
                                fd["b"] = mixed((wshape[0],), np.float32, 9)
                            S.add("cbn/o%d/%s/g%d/%s/e%s/%s%d" % (op, "x".join(map(str, wshape)), group, bias, eps, cu, bo),
                                  build(op, wshape, bias, group, eps, cu, bo, "const"), [fd], (["remove_back_to_back"],), tol=(1e-3, 1e-4))
                    fd = {"x": mixed((2, wshape[1] * group) + (5,) * (len(wshape) - 2), np.float32), "s": mixed((wshape[0],), np.float32, 9)}
                    if bias == "input":
                        fd["b"] = mixed((wshape[0],), np.float32, 9)
                    S.add("cbn/o%d/%s/g%d/%s/dynscale" % (op, "x".join(map(str, wshape)), group, bias),
                          build(op, wshape, bias, group, 0.01, "no", 0, "input"), [fd], (["remove_back_to_back"],), tol=(1e-3, 1e-4))
    for p in ("fold_constants", None):
        S.add("cbn/f64/%s" % p, build(15, (4, 3, 3, 3), "const", 1, 0.01, "no", 0, "const", TensorProto.DOUBLE),
              [{"x": mixed((2, 3, 5, 5), np.float64)}], (["remove_back_to_back"], None), tol=(1e-3, 1e-4))
    # two convolutions share the weights and / or the statistics
    for share in ("w", "stats", "both", "bias"):
        def f(share=share):
            m = M(13)
            x = m.inp("x", F, [1, 2, 4, 4])
            w = [m.const(mixed((3, 2, 2, 2), np.float32, k)) for k in (1, 2)]
            bs = [m.const(mixed((3,), np.float32, k)) for k in (11, 12)]
            ps = [[m.const(np.abs(mixed((3,), np.float32, 3 + 10 * k + j)) + 0.5) for j in range(4)] for k in (0, 1)]
            if share in ("w", "both"):
                w[1] = w[0]
            if share in ("stats", "both"):
                ps[1] = ps[0]
            if share == "bias":
                bs[1] = bs[0]
            for k in (0, 1):
                c = m.op("Conv", x, w[k], bs[k], kernel_shape=[2, 2], pads=[k, 0, 0, k])
                m.out(m.op("Neg", m.op("BatchNormalization", c, *ps[k])))
            c = m.op("Conv", x, w[0], kernel_shape=[2, 2])
            m.out(m.op("Neg", c))
            return m
        S.add("cbnshare/%s" % share, f, [{"x": mixed((1, 2, 4, 4), np.float32)}], (["remove_back_to_back"], None), tol=(1e-3, 1e-4))


# -------------------------------------------------------------------------------------------- duplicates
def duplicates(S, tier):
    """two nodes of the same type: every way in which one thing may differ"""
    pipes = (["merge_duplication"],)
    nodes = {
        "Neg": lambda m, x, v: m.op("Neg", x[v & 1]),
        "Elu": lambda m, x, v: m.op("Elu", x[0], alpha=[1.0, 2.0][v & 1]),
        "EluDefault": lambda m, x, v: m.op("Elu", x[0], **({"alpha": 0.5} if v & 1 else {})),
        "Add": lambda m, x, v: m.op("Add", *(x if v & 1 else x[::-1])),
        "Sub": lambda m, x, v: m.op("Sub", *(x if v & 1 else x[::-1])),
        "Cast": lambda m, x, v: m.op("Cast", m.op("Cast", x[0], to=[I32, I64][v & 1]), to=F),
        "Transpose": lambda m, x, v: m.op("Transpose", x[0], perm=[[1, 0], [0, 1]][v & 1]),
        "Concat": lambda m, x, v: m.op("ReduceSum", m.op("Concat", x[0], x[1], axis=v & 1), keepdims=0),
        "Softmax": lambda m, x, v: m.op("Softmax", x[0], axis=v & 1),
        "ReduceMean": lambda m, x, v: m.reduce("ReduceMean", x[0], [v & 1], 1),
        "Gemm": lambda m, x, v: m.op("Gemm", x[0], x[1], transB=1, alpha=[1., 2.][v & 1]),
        "Const": lambda m, x, v: m.op("Mul", x[0], m.const(np.array([[1., 2., 3.]], np.float32) + (v & 1))),
        "ConstShape": lambda m, x, v: m.reduce("ReduceMean", m.op("Mul", x[0], m.const(np.ones([(1, 3), (2, 1)][v & 1], np.float32) * 2)), [0, 1], 1),
        "ConstZero": lambda m, x, v: m.op("Div", m.op("Abs", x[0]), m.const(np.array([[0.0], [-0.0]][v & 1], np.float32))),
        "ConstNan": lambda m, x, v: m.op("Mul", x[0], m.const(np.array([[np.nan], [2]][v & 1], np.float32))),
        "ConstDtype": lambda m, x, v: m.op("Mul", x[0], m.op("Cast", m.const(np.array([1, 0, 2], [np.int32, np.int64][v & 1])), to=F)),
        "ConstBytes": lambda m, x, v: m.op("Mul", x[0], m.op("Cast", m.const(np.zeros((3,), [np.float32, np.int32][v & 1])), to=F)),
        "Clip": lambda m, x, v: m.op("Clip", x[0], *([m.const(np.float32(0)), ""][:1] if v & 1 else ["", m.const(np.float32(0))])),
        "TopK": lambda m, x, v: m.op("TopK", x[0], m.i64(1), nout=2, axis=1, largest=v & 1)[0],
        "Split": lambda m, x, v: (lambda r: m.op("Sub", r[0], r[1]))(m.split(x[0], [[1, 2], [2, 1]][v & 1], 1)) if False else
                 (lambda r: m.op("Add", m.reduce("ReduceMax", r[0], [1], 1), m.op("Mul", r[-1], m.const(np.float32(3)))))(m.split(x[0], [[1, 1, 1], [1, 1, 1]][v & 1], 1)),
    }
    inputs = {"x": mixed((2, 3), np.float32), "y": mixed((2, 3), np.float32, 4)}

    def build(kind, op, v1, v2, outs, sub):
        def f():
            m = M(op)
            x = [m.inp("x", F, [2, 3]), m.inp("y", F, [2, 3])]
            if kind == "Transpose":
                x = [m.op("MatMul", x[0], m.const(mixed((3, 2), np.float32))), x[1]]
            a = nodes[kind](m, x, v1)
            b = nodes[kind](m, x, v2)
            if outs == "ab":
                m.out(a).out(b)
            elif outs == "a":
                m.out(a).out(m.op("Neg", b))
            elif outs == "b":
                m.out(m.op("Neg", a)).out(b)
            else:
                m.out(m.op("Sub", m.op("Mul", a, m.const(np.float32(2))), m.op("Identity", b)))
            return m
        return f
    for op in (11, 13, 18):
        for kind in nodes:
            for v1, v2 in itertools.product((0, 1), repeat=2):
                for outs in ("ab", "a", "b", "none"):
                    S.add("dup/o%d/%s/%d%d/%s" % (op, kind, v1, v2, outs), build(kind, op, v1, v2, outs, None), [inputs],
                          pipes + ((None,) if op == 13 else ()))
    # same type in different domains, different numbers of outputs, different optional inputs
    for seedy in ("RandomUniform", "RandomNormal", "RandomUniformLike", "Multinomial", "Bernoulli"):
        def f(seedy=seedy):
            m = M(15)
            x = m.inp("x", F, [50, 40])
            def one():
                if seedy.endswith("Like"):
                    return m.op(seedy, x)
                if seedy == "Multinomial":
                    return m.op("Cast", m.op(seedy, m.op("Abs", x), sample_size=60), to=F)
                if seedy == "Bernoulli":
                    return m.op(seedy, m.op("Mul", m.op("Abs", x), m.const(np.float32(0.5))))
                return m.op(seedy, shape=[50, 40])
            a, b = one(), one()
            # are the two draws one and the same?
            d = m.reduce("ReduceMax", m.op("Abs", m.op("Sub", a, b)), [0, 1], 0)
            m.out(m.op("Greater", d, m.const(np.float32(1e-6))), B)
            return m
        S.add("duprandom/%s" % seedy, f, [{"x": np.full((50, 40), 1.0, np.float32)}], (["merge_duplication"], None))
    for op in (13,):
        for order in (0, 1):
            def f(order=order):
                m = M(13)
                x = m.inp("x", F, [2, 6])
                for k in ([0, 1] if order else [1, 0]):
                    if k:
                        r = m.op("Split", x, nout=2, axis=1)
                    else:
                        r = m.op("Split", x, nout=3, axis=1)
                    m.out(m.op("Neg", r[0])).out(m.op("Abs", r[-1]))
                return m
            S.add("dupnout/%d" % order, f, [{"x": mixed((2, 6), np.float32)}], (["merge_duplication"], None))
            def f(order=order):
                m = M(13)
                x = m.inp("x", F, [2, 3])
                outs = [("m", ""), ("", "i")]
                for k in ([0, 1] if order else [1, 0]):
                    n = m.name("tk")
                    o = [n + ":0", n + ":1"]
                    m.nodes.append(helper.make_node("TopK", [x, m.i64(2)], o, name=n, axis=1))
                    m.out(m.op("Neg", o[k]), [F, I64][k])
                return m
            S.add("dupoutputs/%d" % order, f, [{"x": mixed((2, 3), np.float32)}], (["merge_duplication"], None))
    # three equal nodes, all subsets of them being graph outputs
    for mask in range(8):
        for extra in (0, 1):
            def f(mask=mask, extra=extra):
                m = M(13)
                x = m.inp("x", F, [2, 3])
                ts = [m.op("Exp", x) for _ in range(3)]
                for k, t in enumerate(ts):
                    if mask >> k & 1:
                        m.out(t)
                    if not mask >> k & 1 or extra:
                        m.out(m.op("Mul", t, m.const(np.float32(k + 1))))
                return m
            S.add("dup3/%d/%d" % (mask, extra), f, [{"x": mixed((2, 3), np.float32)}], (["merge_duplication"], None))


# -------------------------------------------------------------------------------------------- identities
def identities(S, tier):
    """every tree of identities over {input, constant, computed, second output of a node} x every set of graph outputs"""
    srcs = ("input", "const", "neg", "split1", "initializer")

    def build(src, edges, outmask, users, init):
        def f():
            m = M(13, init=(src == "initializer"))
            x = m.inp("x", F, [2, 4])
            if src == "input":
                t = x
            elif src in ("const", "initializer"):
                t = m.const(mixed((2, 4), np.float32, 3))
            elif src == "neg":
                t = m.op("Neg", x)
            else:
                t = m.op("Split", x, nout=2, axis=1)[1]
            nodes = [t]
            for k, parent in enumerate(edges):
                nodes.append(m.op("Identity", nodes[parent]))
            for k, n in enumerate(nodes):
                if k and outmask >> (k - 1) & 1:
                    m.out(n)
            if users:
                m.out(m.op("Abs", nodes[-1]))
                m.out(m.op("Neg", nodes[0] if users == 2 else nodes[1]))
            if src in ("neg", "split1") and outmask >> len(edges) & 1:
                m.out(t)
            if not m.outputs:
                m.out(nodes[-1])
            return m
        return f
    for src in srcs:
        for n in (1, 2, 3):
            for edges in itertools.product(*[range(k + 1) for k in range(n)]):
                for outmask in range(1 << (n + 1)):
                    for users in (0, 1, 2):
                        S.add("id/%s/%s/%d/%d" % (src, "".join(map(str, edges)), outmask, users), build(src, edges, outmask, users, False),
                              [{"x": mixed((2, 4), np.float32)}], (["remove_identity"],) if n == 3 else (["remove_identity"], None))


# -------------------------------------------------------------------------------------------- constant folding
def folding(S, tier):
    pipes = (["fold_constants"],)

    def add(cid, build, pipes=pipes, half=False):
        for lastout in (0, 1):
            def f(build=build, lastout=lastout):
                m, rs = build()
                for r in (rs if isinstance(rs, (list, tuple)) else [rs]):
                    r, dt = r if isinstance(r, tuple) else (r, F)
                    if lastout:
                        m.out(r, dt)
                    else:
                        m.out(m.op("Cast", r, to=TensorProto.DOUBLE), TensorProto.DOUBLE)
                # a model needs an input
                m.out(m.op("Neg", m.inp("x", F, [1])))
                return m
            S.add("%s/%d" % (cid, lastout), f, [{"x": np.ones(1, np.float32)}], pipes,
                  tol=(5e-3, 5e-3) if half else (1e-4, 1e-5))    # onnxruntime computes float16 in float32

    vals = {"f16": [0, 1.5, -2.25, 100, 0.1], "f32": [0.0, -1.5, 2.75, 100.9, -0.0, 0.1], "f64": [0.0, -1.5, 2.75, 1e10, 0.1],
            "i8": [-128, -1, 0, 127], "u8": [0, 1, 200, 255], "i16": [-32768, 0, 5, 32767], "i32": [-2 ** 31, -7, 0, 2 ** 31 - 1],
            "i64": [-2 ** 40, -1, 0, 3, 2 ** 40], "bool": [False, True]}
    for a in vals:
        for b in DT:
            if a[0] == "f" and b[0] in "iu":   # out of range conversions are undefined
                v = np.array([0, 1.5, 2.75, 100.9], NP[a])
                if b[0] == "i":
                    v[1] = -1.5
            elif b == "f16":
                v = np.array(vals[a], NP[a])
                v = v[np.abs(v.astype(np.float64)) < 60000]
            else:
                v = np.array(vals[a], NP[a])

            def f(a=a, b=b, v=v):
                m = M(13)
                return m, [(m.op("Cast", m.const(v), to=DT[b]), DT[b])]
            add("fold/cast/%s-%s" % (a, b), f)
    for op in (9, 11, 13, 18) if tier != "quick" else (9, 13, 18):
        for shape in ((2, 3), (2, 3, 4), (1,), (2, 0)):
            for perm in [None] + list(itertools.permutations(range(len(shape)))):
                def f(op=op, shape=shape, perm=perm):
                    m = M(op)
                    return m, m.op("Transpose", m.const(mixed(shape, np.float32)), perm=perm)
                add("fold/transpose/o%d/%s/%s" % (op, shape and "x".join(map(str, shape)), "" if perm is None else "".join(map(str, perm))), f)
        for shape in ((2, 3, 4), (24,), (2, 0, 3), ()):
            for new in ((24,), (-1,), (6, 4), (0, -1), (0, 0, 4), (0, 0, 0), (2, -1, 3), (4, 3, 2), (-1, 0), (1, 1, 24), (0, 3), (0, 6), (2, 0, 3), (3, 0, 2), ()):
                for az in ((None, 0, 1) if op >= 14 else (None,)):
                    def f(op=op, shape=shape, new=new, az=az):
                        m = M(op)
                        return m, m.op("Reshape", m.const(mixed(shape, np.float32)), m.const(np.array(new, np.int64)), allowzero=az)
                    add("fold/reshape/o%d/%s/%s/%s" % (op, "x".join(map(str, shape)), ".".join(map(str, new)), az), f,
                        (["fold_constants"], ["optimize_transpose"]))
        for sh in (((2, 3), (2, 3)), ((2, 1), (2, 3)), ((3, 2), (1, 2)), ((2, 0), (2, 3))):
            for axis in (0, 1, -1, -2):
                if axis < 0 and op < 11:
                    continue
                def f(op=op, sh=sh, axis=axis):
                    m = M(op)
                    return m, m.op("Concat", *[m.const(mixed(s, np.float32, k)) for k, s in enumerate(sh)], axis=axis)
                add("fold/concat/o%d/%s/%d" % (op, "_".join("x".join(map(str, s)) for s in sh), axis), f)
        for shape in ((3,), (2, 3), ()):
            n = len(shape)
            for k in (1, 2):
                for axes in itertools.permutations(range(-(n + k), n + k), k):
                    if len({a % (n + k) for a in axes}) < k or (op < 11 and min(axes) < 0):
                        continue
                    def f(op=op, shape=shape, axes=axes):
                        m = M(op)
                        return m, m.unsqueeze(m.const(mixed(shape, np.float32)), list(axes))
                    add("fold/unsqueeze/o%d/%s/%s" % (op, "x".join(map(str, shape)), ".".join(map(str, axes))), f)
        for typ in ("Mul", "Add", "Sub"):
            for dt in ("f32", "f64", "i32", "i64") + (("f16", "u8", "i8") if op >= 14 else ()):
                for sa, sb in itertools.product(((), (3,), (2, 3), (2, 1), (0, 3), (1, 1, 3)), repeat=2):
                    def f(op=op, typ=typ, dt=dt, sa=sa, sb=sb):
                        m = M(op)
                        a = mixed(sa, np.float64, 1).astype(NP[dt]) if dt != "u8" else mixed(sa, np.uint8)
                        b = mixed(sb, np.float64, 5).astype(NP[dt]) if dt != "u8" else mixed(sb, np.uint8, 7)
                        if dt in ("i32", "i64"):
                            a = a * np.array(2 ** (20 if dt == "i32" else 40), NP[dt])
                        return m, [(m.op(typ, m.const(a), m.const(b)), DT[dt])]
                    if op in (9, 13) or dt == "f32" or (op == 18 and dt in ("f16", "u8", "i8")):
                        add("fold/%s/o%d/%s/%s_%s" % (typ, op, dt, "x".join(map(str, sa)), "x".join(map(str, sb))), f, half=dt == "f16")
        for axis in (0, 1, -1, None):
            dim = (5, 6)[axis or 0]
            for parts in ([dim], [1, dim - 1], [2, 1, dim - 3], [0, dim], [dim - 1, 0, 1]):
                def f(op=op, axis=axis, parts=parts):
                    m = M(op)
                    r = m.split(m.const(mixed((5, 6), np.float32)), parts, axis)
                    return m, r if isinstance(r, list) else [r]
                add("fold/split/o%d/%s/%s" % (op, axis, ".".join(map(str, parts))), f)
            for n in (1, 2, 3, 4):
                def f(op=op, axis=axis, n=n):
                    m = M(op)
                    r = m.split(m.const(mixed((5, 6), np.float32)), None, axis, n)
                    return m, r if isinstance(r, list) else [r]
                add("fold/splitn/o%d/%s/%d" % (op, axis, n), f)
    # folding in a chain, a folded value used by several nodes and in a subgraph
    for op in (13,):
        for k, used in enumerate(itertools.product((0, 1, 2), repeat=2)):
            def f(used=used):
                m = M(13)
                x = m.inp("x", F, [2, 3])
                c = m.const(mixed((3, 2), np.float32))
                t = m.op("Transpose", c, perm=[1, 0])
                u = m.op("Mul", t, m.const(np.float32(2)))
                a = m.op("Add", x, [c, t, u][used[0]] if used[0] else t)
                b = m.op("Sub", [t, t, u][used[1]], x)
                m.out(a).out(b)
                if used[0] == 2:
                    m.out(t)
                return m
            S.add("foldchain/%s" % "".join(map(str, used)), f, [{"x": mixed((2, 3), np.float32)}], (["fold_constants"], None))


# -------------------------------------------------------------------------------------------- pools, upsample
def pools(S, tier):
    for op in (9, 11, 13, 17, 18) if tier != "quick" else (11, 17, 18):
        for typ in ("ReduceMean", "ReduceMax", "ReduceMin", "ReduceSum"):
            for shape in ((2, 3, 4, 5), (2, 3, 4), (2, 3), (2, 3, 4, 5, 2)):
                n = len(shape)
                for k in range(1, n + 1):
                    for axes in itertools.combinations(range(n), k):
                        if tier == "quick" and n == 5 and k not in (3, 4):
                            continue
                        for kd in (None, 0, 1):
                            for mode in ("end", "out", "dyn", "neg", "i32"):
                                if tier == "quick" and op == 11 and (mode not in ("end", "neg") or typ not in ("ReduceMean", "ReduceMax")):
                                    continue
                                if mode != "end" and not (axes and axes[0] >= 1):
                                    continue
                                if mode == "neg" and op < 11:
                                    continue
                                ax = [a - n for a in axes] if mode == "neg" else list(axes)
                                def f(op=op, typ=typ, shape=shape, ax=ax, kd=kd, mode=mode):
                                    m = M(op)
                                    dt = I32 if mode == "i32" else F
                                    x = m.inp("x", dt, [None] * len(shape) if mode == "dyn" else list(shape))
                                    r = m.reduce(typ, m.op("Abs", x), ax, kd)
                                    m.out(r if mode == "out" else m.op("Neg", m.op("Cast", r, to=F)), dt if mode == "out" else F)
                                    return m
                                S.add("pool/o%d/%s/%s/%s/kd%s/%s" % (op, typ, "x".join(map(str, shape)), "".join(map(str, axes)), kd, mode), f,
                                      [{"x": mixed(shape, np.int32 if mode == "i32" else np.float32)}], (["global_pool_optimizer"],))
        for typ in ("ReduceMean", "ReduceMax"):
            def f(op=op, typ=typ):
                m = M(op)
                m.out(m.op("Neg", m.reduce(typ, m.inp("x", F, [2, 3, 4]), None, 0)))
                return m
            S.add("pool/o%d/%s/noaxes" % (op, typ), f, [{"x": mixed((2, 3, 4), np.float32)}], (["global_pool_optimizer"],))
    for op in (7, 9):
        for scales in itertools.product((1.0, 2.0, 1.5), repeat=4):
            if scales[:2] != (1.0, 1.0):
                continue
            for mode in ("nearest", "linear"):
                for kind in ("const", "input", "out"):
                    if op == 7 and kind == "input":
                        continue
                    def f(op=op, scales=scales, mode=mode, kind=kind):
                        m = M(op)
                        x = m.op("Neg", m.inp("x", F, [1, 2, 3, 4]))
                        if op == 7:
                            r = m.op("Upsample", x, scales=list(scales), mode=mode)
                        else:
                            s = m.const(np.array(scales, np.float32)) if kind != "input" else m.inp("s", F, [4])
                            r = m.op("Upsample", x, s, mode=mode)
                        m.out(r if kind == "out" else m.op("Abs", r))
                        return m
                    fd = {"x": mixed((1, 2, 3, 4), np.float32)}
                    if kind == "input":
                        fd["s"] = np.array(scales, np.float32)
                    S.add("ups/o%d/%s/%s/%s" % (op, ".".join(map(str, scales)), mode, kind), f, [fd], (["remove_redundant_upsample"], None))


# -------------------------------------------------------------------------------------------- reshape with computed shapes
def computed_reshape(S, tier):
    """Reshape whose shape is computed from the input's own shape: every list of up to three pieces"""
    pieces = {
        "d0": lambda m, s, x: gather(m, s, 0), "d1": lambda m, s, x: gather(m, s, 1), "d2": lambda m, s, x: gather(m, s, 2),
        "dl": lambda m, s, x: gather(m, s, -1) if m.opset >= 11 else gather(m, s, 2),
        "m1": lambda m, s, x: m.i64(-1), "c1": lambda m, s, x: m.i64(1), "c2": lambda m, s, x: m.i64(2),
        "d01": lambda m, s, x: m.op("Mul", gather(m, s, 0), gather(m, s, 1)),
        "d12": lambda m, s, x: m.op("Mul", gather(m, s, 1), gather(m, s, 2)),
        "2d0": lambda m, s, x: m.op("Mul", gather(m, s, 0), m.i64(2)),
        "p12": lambda m, s, x: m.reduce("ReduceProd", m.slice(s, [1], [3], [0]), [0], 1),
        "s01": lambda m, s, x: m.slice(s, [0], [2], [0]), "s12": lambda m, s, x: m.slice(s, [1], [3], [0]),
        "s2": lambda m, s, x: m.slice(s, [-1], [2 ** 31 - 1], [0]),
        "other": lambda m, s, x: gather(m, m.op("Shape", "y"), 0),
    }

    def gather(m, s, i):
        return m.op("Gather", s, m.i64(i), axis=0)

    def build(op, shape, names, mode):
        def f():
            m = M(op)
            x = m.inp("x", F, list(shape))
            if "other" in names:
                m.inp("y", F, [None, None])
            t = m.op("Neg", x)
            s = m.op("Shape", t)
            ps = [pieces[n](m, s, t) for n in names]
            sh = m.op("Concat", *ps, axis=0) if len(ps) > 1 or mode == "cat" else ps[0]
            if mode == "i32":
                sh = m.op("Cast", m.op("Cast", sh, to=I32), to=I64)
            elif mode == "sq":
                sh = m.squeeze(m.unsqueeze(sh, [1]), [1])
            elif mode == "sqneg":
                sh = m.squeeze(m.unsqueeze(sh, [-1 if op >= 11 else 1]), [-1 if op >= 11 else 1])
            elif mode == "sq3":
                sh = m.squeeze(m.unsqueeze(sh, [0, 2]), [-1, 0] if op >= 11 else [0, 2])
            r = m.op("Reshape", t, sh)
            rank = sum(2 if n in ("s01", "s12") else 1 for n in names)
            if mode != "norank":
                m.vinfo.append(helper.make_tensor_value_info(r, F, [None] * rank))
            m.out(r if mode == "out" else m.op("Abs", r), F, [None] * rank if mode != "norank" else None)
            return m
        return f
    for op in (9, 12, 13, 18):
        for shape in (((None, None, None), (2, None, 3), (None, 3, 2), (None, 1, None), (2, 3, None))):
            runs = [tuple(r if d is None else d for d, r in zip(shape, rr)) for rr in ((2, 3, 4), (4, 6, 2), (1, 1, 6))]
            for n in (1, 2, 3):
                for names in itertools.product(pieces, repeat=n):
                    if names.count("m1") > 1:
                        continue
                    if tier == "quick" and n == 3 and (op != 18 or shape != (None, None, None) or "other" in names or "p12" in names):
                        continue
                    if tier != "quick" and n == 3 and op in (9, 12):
                        continue
                    ok = [r for r in runs if fits(names, r)]
                    if not ok:
                        continue
                    for mode in ("", "out", "i32", "sq", "sqneg", "sq3", "norank"):
                        if tier == "quick" and n == 2 and shape not in ((None, None, None), (2, None, 3)) and op != 13:
                            continue
                        if tier == "quick" and mode and not (n == 1 or (n == 2 and op == 13) or (mode == "out" and op == 18)):
                            continue
                        fds = []
                        for r in ok:
                            fd = {"x": mixed(r, np.float32)}
                            if "other" in names:
                                fd["y"] = np.zeros((2, 1), np.float32)
                            fds.append(fd)
                        S.add("rs/o%d/%s/%s%s" % (op, ".".join("n" if d is None else str(d) for d in shape), ",".join(names), "/" + mode if mode else ""),
                              build(op, shape, names, mode), fds, (["reshape_optimizer"],) if op != 18 or n == 3 else (["reshape_optimizer"], None))


def fits(names, r):
    d = {"d0": [r[0]], "d1": [r[1]], "d2": [r[2]], "dl": [r[2]], "m1": [-1], "c1": [1], "c2": [2], "d01": [r[0] * r[1]], "d12": [r[1] * r[2]],
         "2d0": [2 * r[0]], "p12": [r[1] * r[2]], "s01": [r[0], r[1]], "s12": [r[1], r[2]], "s2": [r[2]], "other": [2]}
    dims = [x for n in names for x in d[n]]
    tot = r[0] * r[1] * r[2]
    p = 1
    for x in dims:
        if x != -1:
            p *= x
    return p == tot if -1 not in dims else p > 0 and tot % p == 0


# -------------------------------------------------------------------------------------------- loops and branches
def subgraphs(S, tier):
    perms = list(itertools.permutations(range(3)))
    pipes = (["loop_optimizer"], None)

    def loop(op, perm, wrap, scans, carried, use):
        def f():
            m = M(op)
            x = m.inp("x", F, [2, 3, 4])
            n = m.inp("n", I64, [])
            b = M(op, prefix="b_")
            it = b.inp("it", I64, [])
            cd = b.inp("cd", B, [])
            vs = [b.inp("v%d" % k, F, [2, 3, 4]) for k in range(carried)]
            b.out(b.op("Identity", cd), B, [])
            cur = x if not vs else vs[0]
            for k, v in enumerate(vs):
                b.out(b.op("Add", v, b.op("Cast", it, to=F)), F, [2, 3, 4])
            for k in range(scans):
                t = b.op("Transpose", b.op("Mul", cur, b.op("Add", b.op("Cast", it, to=F), b.const(np.float32(k + 1)))), perm=perm)
                if wrap == "id":
                    t = b.op("Identity", t)
                elif wrap == "relu":
                    t = b.op("Relu", t)
                elif wrap == "used":
                    if vs:
                        b.outputs[1] = helper.make_tensor_value_info(b.op("Add", vs[0], b.op("ReduceMax", t, keepdims=0)), F, [2, 3, 4])
                b.out(t, F, [[2, 3, 4][p] for p in perm])
                if wrap == "twice":
                    b.out(b.op("Identity", t), F, [[2, 3, 4][p] for p in perm])
            scan_n = scans * (2 if wrap == "twice" else 1)
            outs = ["r%d" % k for k in range(carried + scan_n)]
            m.nodes.append(helper.make_node("Loop", [n, ""] + [x] * carried, outs, name="loop", body=b.graph("body")))
            for k, o in enumerate(outs):
                m.out(m.op("Neg", o) if use == "neg" else m.op("Transpose", o, perm=[0, 1, 3, 2]) if use == "tr" and k >= carried else o)
            return m
        return f
    for op in (11, 13, 18):
        for perm in perms:
            for wrap in ("", "id", "relu", "twice", "used"):
                for scans in (1, 2):
                    for carried in (0, 1):
                        for use in ("neg", "out", "tr"):
                            if op != 13 and (scans == 2 or use == "tr"):
                                continue
                            S.add("loop/o%d/%s/%s/%d%d/%s" % (op, "".join(map(str, perm)), wrap, scans, carried, use),
                                  loop(op, perm, wrap, scans, carried, use),
                                  [{"x": mixed((2, 3, 4), np.float32), "n": np.array(k, np.int64)} for k in (3, 1)], pipes)

    # If: every pair of small branch bodies over an outer value, with duplicates, identities and constants on both sides of the border
    bodies = {
        "outer": lambda b, t, c: t,
        "id": lambda b, t, c: b.op("Identity", t),
        "neg": lambda b, t, c: b.op("Neg", t),
        "const": lambda b, t, c: b.const(mixed((2, 3), np.float32, 8)),
        "outerconst": lambda b, t, c: b.op("Add", t, c),
        "fold": lambda b, t, c: b.op("Add", t, b.op("Transpose", b.const(mixed((3, 2), np.float32, 2)), perm=[1, 0])),
        "foldouter": lambda b, t, c: b.op("Mul", t, b.op("Add", c, b.const(np.float32(1)))),
        "tt": lambda b, t, c: b.op("Transpose", b.op("Transpose", t, perm=[1, 0]), perm=[1, 0]),
        "dup": lambda b, t, c: b.op("Add", b.op("Exp", t), b.op("Exp", t)),
        "cast": lambda b, t, c: b.op("Cast", b.op("Cast", t, to=TensorProto.DOUBLE), to=F),
        "idid": lambda b, t, c: b.op("Identity", b.op("Neg", b.op("Identity", t))),
        "reshape": lambda b, t, c: b.op("Reshape", b.op("Reshape", t, b.i64(6)), b.i64(2, 3)),
    }

    def cond(op, b1, b2, src, after, nest):
        def f():
            m = M(op)
            x = m.inp("x", F, [2, 3])
            p = m.inp("p", B, [])
            c = m.const(mixed((2, 3), np.float32, 8))
            if src == "input":
                t = x
            elif src == "id":
                t = m.op("Identity", x)
            elif src == "tt":
                t = m.op("Transpose", m.op("Transpose", m.op("Abs", x), perm=[1, 0]), perm=[1, 0])
            elif src == "exp":
                t = m.op("Exp", x)
            elif src == "dupouter":
                t = m.op("Exp", x)
                m.out(m.op("Exp", x))
            gs = []
            for k, bb in enumerate((b1, b2)):
                b = M(op, prefix="b%d_" % k)
                r = bodies[bb](b, t, c)
                if bb == "outer":
                    r = b.op("Identity", t)
                if nest and k == 0:
                    ib = [M(op, prefix="i%d_" % j) for j in (0, 1)]
                    for j in (0, 1):
                        ib[j].out(ib[j].op("Neg", t) if j else ib[j].op("Add", r, t), F, [2, 3])
                    r2 = b.name("res")
                    b.nodes.append(helper.make_node("If", [p], [r2], name=b.name("if"), then_branch=ib[0].graph("t"), else_branch=ib[1].graph("e")))
                    r = r2
                b.out(r, F, [2, 3])
                gs.append(b.graph("branch%d" % k))
            m.nodes.append(helper.make_node("If", [p], ["r"], name="if", then_branch=gs[0], else_branch=gs[1]))
            m.out("r" if after == "out" else m.op("Identity", "r") if after == "id" else m.op("Sub", "r", t), F, [2, 3])
            return m
        return f
    feeds = [{"x": mixed((2, 3), np.float32), "p": np.array(v)} for v in (True, False)]
    for op in (11, 13):
        for b1, b2 in itertools.product(bodies, repeat=2):
            for src in ("input", "id", "tt", "exp", "dupouter"):
                for after in ("out", "sub", "id"):
                    if op == 11 and (after != "sub" or src not in ("id", "tt")) or (tier == "quick" and (op == 11 or after == "id")):
                        continue
                    S.add("if/o%d/%s_%s/%s/%s" % (op, b1, b2, src, after), cond(op, b1, b2, src, after, 0), feeds)
                if op == 13:
                    S.add("ifif/o%d/%s_%s/%s" % (op, b1, b2, src), cond(op, b1, b2, src, "sub", 1), feeds)


# -------------------------------------------------------------------------------------------- mixed chains through the pipeline
STEPS = {
    "id": lambda m, t: m.op("Identity", t),
    "neg": lambda m, t: m.op("Neg", t),
    "t10": lambda m, t: m.op("Transpose", t, perm=[1, 0]),
    "t01": lambda m, t: m.op("Transpose", t, perm=[0, 1]),
    "r2c": lambda m, t: m.op("Reshape", t, m.i64(2, 12)),
    "r0": lambda m, t: m.op("Reshape", t, m.i64(0, -1)),
    "rm1": lambda m, t: m.op("Reshape", t, m.i64(-1, 4)),
    "rdyn": lambda m, t: m.op("Reshape", t, m.op("Concat", m.op("Gather", m.op("Shape", t), m.i64(0)), m.i64(-1), axis=0)),
    "rswap": lambda m, t: m.op("Reshape", t, m.op("Gather", m.op("Shape", t), m.i64(1, 0))),
    "us": lambda m, t: m.squeeze(m.unsqueeze(t, [0]), [0]),
    "su": lambda m, t: m.squeeze(m.op("Relu", m.unsqueeze(t, [2])), [-1]),
    "f64": lambda m, t: m.op("Cast", m.op("Cast", t, to=TensorProto.DOUBLE), to=F),
    "i64": lambda m, t: m.op("Cast", m.op("Cast", t, to=I64), to=F),
    "addc": lambda m, t: m.op("Add", t, m.op("Mul", m.const(np.float32(2)), m.const(np.float32(1.5)))),
    "self": lambda m, t: m.op("Add", m.op("Exp", m.op("Clip", t, m.const(np.float32(-1)), m.const(np.float32(1)))),
                              m.op("Exp", m.op("Clip", t, m.const(np.float32(-1)), m.const(np.float32(1))))),
    "cat": lambda m, t: (lambda r: m.op("Concat", r[1], r[0], axis=1))(m.split(t, None, 1, 2)),
    "mean": lambda m, t: m.op("Add", t, m.reduce("ReduceMean", m.unsqueeze(m.unsqueeze(t, [0]), [0]), [2, 3], 0)) if False else
            m.op("Add", t, m.reduce("ReduceMax", t, [1], 1)),
}


def chains(S, tier):
    def build(op, steps, outs, dyn):
        def f():
            m = M(op)
            t = m.inp("x", F, [None, None] if dyn else [4, 6])
            ts = []
            for s in steps:
                t = STEPS[s](m, t)
                ts.append(t)
            if outs == "all":
                for u in ts:
                    m.out(u)
            elif outs == "end":
                m.out(t)
            else:
                m.out(m.op("Abs", t))
                m.out(m.op("Neg", ts[0]))
            return m
        return f
    feeds = [{"x": mixed((4, 6), np.float32)}]
    names = list(STEPS)
    for op in (12, 13, 18):
        for n in (1, 2, 3):
            for steps in itertools.product(names, repeat=n):
                if n == 3 and (op != 13 or (tier == "quick" and hash_(steps) % 6)):
                    continue
                for dyn, outs in (((0, "end"), (1, "mid")) if n == 3 else itertools.product((0, 1), ("end", "all", "mid"))):
                    if n == 2 and op != 13 and (outs == "all" or (tier == "quick" and (outs, dyn) != ("end", 1))):
                        continue
                    S.add("chain/o%d/%s/%s%d" % (op, ",".join(steps), outs, dyn), build(op, steps, outs, dyn), feeds, (None,))


def hash_(steps):
    """a fixed sixth of the depth 3 chains in the quick tier: a Latin cube slice, so that every pair of steps still occurs"""
    return sum(list(STEPS).index(s) for s in steps)


def cases(tier):
    S = Suite()
    for fam in (casts, transposes, squeezes, reshapes, convbn, duplicates, identities, folding, pools, computed_reshape, subgraphs, chains):
        fam(S, tier)
    return S.out
