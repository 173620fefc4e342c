"""C10: fake quantization, quantize-and-dequantize, and the optimizers that move Quantize/DequantizeLinear around."""
import itertools

import numpy as np
import tensorflow as tf
from onnx import TensorProto, helper

from mc import oxcase, tfcase
from mc.oxcase import M, F, I64, I32
from mc.tfcase import dyn, mixed, shp

tfcase.define(globals(), "C10", rule="TensorFlow part: one program per (operator x range x signedness x narrow x bits x axis x rounding x shape x opset), run on a grid of "
              "values around every rounding and clamping point (exact ties excluded) and compared with TensorFlow; ONNX part: one graph per (quantize / dequantize "
              "arrangement x tensor-moving operator x sharing x per-tensor/per-channel x type x opset), optimized and compared with the original")
R = tf.raw_ops
U8, I8 = TensorProto.UINT8, TensorProto.INT8
tf_run = run_group          # noqa: F821  pylint: disable=undefined-variable
tf_key = group_key          # noqa: F821  pylint: disable=undefined-variable


def run_group(cases):
    if "pipes" in cases[0].spec:
        return oxcase.run_group(cases)
    return tf_run(cases)


def group_key(c):
    return ("onnx",) if "pipes" in c.spec else tf_key(c)


def grid(lo, hi, bits=8, n=None):
    """values on both sides of every kind of boundary, none of them a tie"""
    q = (hi - lo) / (2 ** bits - 1)
    ks = [-300, -2, -1, 0, 1, 2, 3, 10, 60, 126, 127, 128, 129, 200, 253, 254, 255, 256, 257, 300]
    v = [lo + q * (k + d) for k in ks for d in (0.02, 0.3, -0.3, 0.45, -0.45)] + [0.0]
    return np.array(v if n is None else v[:n], np.float32)


def fake_quant(s, tier):
    ranges = [(-1.0, 1.0), (0.0, 6.0), (-6.0, 6.0), (-0.1, 3.9), (-3.0, 0.0), (-0.5, 254.5), (-1.5, 253.5), (-126.5, 128.5), (-100.0, 155.0), (0.5, 2.5), (-3.0, -1.0),
              (0.0, 255.0), (-0.001, 10.0), (-10.0, 0.001), (0.0, 0.01), (-1.05, 0.95)]
    for lo, hi in ranges:
        x = grid(lo, hi)
        if hi - lo == 255.0:        # the step is one: TensorFlow's nudge moves the grid by less than the margin of a tie, keep whole numbers out of it
            x = np.array([k + d for k in (-130, -128, -127, -2, -1, 0, 1, 2, 50, 127, 128, 253, 254, 255, 300) for d in (0.05, 0.2, -0.2)], np.float32)
        for narrow in (False, True):
            for bits in (8, 2, 7, 16):
                if bits != 8 and (lo, hi) not in ranges[:4]:
                    continue
                for o in (18, 13, 12, 11, 10, 9):
                    if tier == "quick" and (narrow or bits != 8) and o not in (18, 9):
                        continue
                    for shape in ([len(x)], [None]):
                        s.add("fqargs/%s_%s/n%d/b%d/%s" % (lo, hi, narrow, bits, shp(shape)),
                              lambda x, lo=lo, hi=hi, narrow=narrow, bits=bits: R.FakeQuantWithMinMaxArgs(inputs=x, min=lo, max=hi, num_bits=bits, narrow_range=narrow),
                              [(shape, "float32")], [[x]], o)
                        s.add("fqvars/%s_%s/n%d/b%d/%s" % (lo, hi, narrow, bits, shp(shape)),
                              lambda x, lo=lo, hi=hi, narrow=narrow, bits=bits: R.FakeQuantWithMinMaxVars(inputs=x, min=lo, max=hi, num_bits=bits, narrow_range=narrow),
                              [(shape, "float32")], [[x]], o)
    x = grid(-1.0, 1.0, n=24)
    for o in (18, 13, 12, 10):
        for sh in ([], [1], [1, 24], [24, 1], [2, 12], [2, 3, 4], [1, 2, 3, 4], [0, 3]):
            n = int(np.prod(sh)) if sh else 1
            for q in (sh, dyn(sh)):
                s.add("fqrank/%s/%s" % (shp(sh), shp(q)), lambda x: R.FakeQuantWithMinMaxArgs(inputs=x, min=-1.0, max=1.0), [(q, "float32")], [[x[:n].reshape(sh)]], o)
        s.add("fqrt", lambda x, a, b: R.FakeQuantWithMinMaxVars(inputs=x, min=a, max=b), [([24], "float32"), ([], "float32"), ([], "float32")],
              [[x, np.float32(-1), np.float32(1)], [x, np.float32(-6), np.float32(6)]], o)
        s.add("fqchan", lambda x: R.FakeQuantWithMinMaxVarsPerChannel(inputs=x, min=[-1.0, -2.0], max=[1.0, 3.0]), [([12, 2], "float32")], [[x.reshape(12, 2)]], o)
        # between layers
        s.add("fqchain", lambda x: tf.nn.relu(R.FakeQuantWithMinMaxArgs(inputs=R.FakeQuantWithMinMaxArgs(inputs=x, min=-1.0, max=1.0) + 0.003, min=-6.0, max=6.0)),
              [([None], "float32")], [[x]], o)


def qdq(s, tier):
    rank_shapes = {1: [24], 2: [6, 4], 3: [2, 3, 4], 4: [1, 2, 3, 4]}
    data = (mixed([24], np.float32) * np.float32(0.731)).astype(np.float32)
    feeds0 = [data, data * np.float32(0.01) + np.float32(0.3), data - np.float32(9.3), np.abs(data) + np.float32(0.17), -np.abs(data) - np.float32(0.2)]
    ranges = [(-1.0, 1.0), (-6.0, 6.0), (0.0, 6.0), (-3.0, 0.5), (-0.5, 3.0), (0.5, 3.0), (-3.0, -0.5), (0.0, 0.0)]
    ops = {"V2": lambda x, lo, hi, kw: R.QuantizeAndDequantizeV2(input=x, input_min=lo, input_max=hi, **kw),
           "V4": lambda x, lo, hi, kw: R.QuantizeAndDequantizeV4(input=x, input_min=lo, input_max=hi, **kw),
           "V3": lambda x, lo, hi, kw: R.QuantizeAndDequantizeV3(input=x, input_min=lo, input_max=hi, **kw)}
    for ver in ops:
        for signed in (True, False):
            for narrow in (False, True):
                for given in (False, True):
                    for mode in ("HALF_TO_EVEN", "HALF_UP"):
                        if ver == "V3" and mode == "HALF_UP":
                            continue
                        for bits in (8, 4, 7, 16):
                            for rank, axis in [(1, -1), (4, -1), (2, 0), (2, 1), (3, 1), (4, 3), (4, 0), (1, 0)]:
                                if bits != 8 and (rank, axis) not in ((1, -1), (2, 1)):
                                    continue
                                if mode == "HALF_UP" and (rank, axis) != (1, -1):
                                    continue
                                for rng in ranges if given else [(0.0, 0.0)]:
                                    if given and rng[1] <= rng[0]:
                                        continue
                                    if tier == "quick" and (mode == "HALF_UP" and rng != ranges[0] or bits == 16 and ver != "V3" or ver == "V2" and rng not in ranges[:3]):
                                        continue
                                    for o in (18, 13, 12, 10, 9):
                                        if (rng not in ranges[:2] or bits != 8 or rank > 2) and o in (12, 9) and tier == "quick":
                                            continue
                                        shape = rank_shapes[rank]
                                        ch = shape[axis] if axis >= 0 else None
                                        lo, hi = rng
                                        if ch is not None and ver != "V3":
                                            continue        # TensorFlow itself only takes scalar ranges here
                                        if ch is not None:
                                            lo = np.array([lo * (1 + i) for i in range(ch)], np.float32)
                                            hi = np.array([hi * (1 + i) for i in range(ch)], np.float32)
                                        kw = dict(signed_input=signed, range_given=given, narrow_range=narrow, axis=axis)
                                        if ver == "V3":
                                            kw["num_bits"] = bits
                                        else:
                                            kw.update(num_bits=bits, round_mode=mode)
                                        fs = feeds0 if not given else [data, data * np.float32(0.37), data * np.float32(3.1)]
                                        if mode == "HALF_UP":
                                            # ties are what the two modes differ in
                                            fs = [np.array([k * 2.0 ** -7 / 2 for k in range(-12, 12)], np.float32)]
                                            if given:
                                                lo, hi = -1.0, 127 / 128. if signed else 255 / 128.
                                            else:
                                                continue
                                        if not signed and not given:
                                            fs = [np.abs(f) for f in fs]
                                        for q in ((shape, dyn(shape)) if bits == 8 else (shape,)):
                                            s.add("qdq%s/%s%s%s/%s/b%d/%s/ax%d/%s" % (ver, "s" if signed else "u", "n" if narrow else "", "g%s_%s" % rng if given else "", mode, bits, shp(q), axis, rank),
                                                  lambda x, ver=ver, lo=lo, hi=hi, kw=kw: ops[ver](x, lo, hi, kw), [(q, "float32")], [[f.reshape(shape)] for f in fs], o)
    for o in (18, 13):
        for ver in ops:
            kw = dict(signed_input=True, range_given=True, narrow_range=False)
            kw["num_bits"] = 8
            s.add("qdqrt/%s" % ver, lambda x, a, b, ver=ver, kw=kw: ops[ver](x, a, b, kw), [([24], "float32"), ([], "float32"), ([], "float32")],
                  [[data, np.float32(-1), np.float32(1)], [data, np.float32(-6), np.float32(6)]], o)
            s.add("qdqrange/%s" % ver, lambda x, ver=ver: ops[ver](x, 0.0, 0.0, dict(signed_input=True, range_given=False, num_bits=8)), [([None], "float32")],
                  [[np.zeros(4, np.float32)]], o)


# ------------------------------------------------------------------ ONNX graphs
def tensor_ops(op):
    """tensor-moving operators on a (2, 3, 4, 4) tensor: name -> (m, tensors) -> tensors; the number of data inputs"""
    ops = {
        "Identity": (1, lambda m, t: m.op("Identity", t[0])),
        "Reshape": (1, lambda m, t: m.op("Reshape", t[0], m.i64(2, 12, 4))),
        "Flatten": (1, lambda m, t: m.op("Flatten", t[0], axis=2)),
        "Expand": (1, lambda m, t: m.op("Expand", t[0], m.i64(2, 2, 3, 4, 4))),
        "Transpose": (1, lambda m, t: m.op("Transpose", t[0], perm=[0, 2, 3, 1])),
        "Unsqueeze": (1, lambda m, t: m.unsqueeze(t[0], [1])),
        "SqueezeU": (1, lambda m, t: m.squeeze(m.unsqueeze(t[0], [1]), [1])),
        "Slice": (1, lambda m, t: m.slice(t[0], [0, 1], [1, 3], [0, 2])),
        "Gather": (1, lambda m, t: m.op("Gather", t[0], m.i64(1, 0, 1), axis=0)),
        "Concat1": (1, lambda m, t: m.op("Concat", t[0], axis=0)),
        "Concat": (2, lambda m, t: m.op("Concat", t[0], t[1], axis=1)),
        "ConcatSame": (1, lambda m, t: m.op("Concat", t[0], t[0], axis=1)),
        "Concat3": (3, lambda m, t: m.op("Concat", *t, axis=2)),
        "Split": (1, lambda m, t: m.split(t[0], [1, 2], 1)),
        "Tile": (1, lambda m, t: m.op("Tile", t[0], m.i64(1, 2, 1, 1))),
        "DepthToSpace": (1, lambda m, t: m.op("DepthToSpace", m.op("Transpose", t[0], perm=[0, 2, 1, 3]), blocksize=2)),
        "Compress": (1, lambda m, t: m.op("Compress", t[0], m.const(np.array([True, False, True])), axis=1)),
        "MaxPool": (1, lambda m, t: m.op("MaxPool", t[0], kernel_shape=[2, 2])),
        "Relu": (1, lambda m, t: m.op("Relu", t[0])),
        "Add": (2, lambda m, t: m.op("Add", t[0], t[1])),
    }
    if op >= 10:
        ops["ReverseSequence"] = (1, lambda m, t: m.op("ReverseSequence", t[0], m.i64(2, 1, 3), batch_axis=1, time_axis=2))
    if op >= 11:
        ops["GatherElements"] = (1, lambda m, t: m.op("GatherElements", t[0], m.const(np.array([[[[1, 0, 1, 1]]]], np.int64)), axis=0))
        ops["GatherND"] = (1, lambda m, t: m.op("GatherND", t[0], m.const(np.array([[1, 2], [0, 1]], np.int64))))
        idx = np.array([[[[1, 0, 1, 0]]]], np.int64)
        ops["ScatterElements"] = (2, lambda m, t: m.op("ScatterElements", t[0], m.const(idx), m.slice(t[1], [0, 0, 0], [1, 1, 1], [0, 1, 2]), axis=0))
        ops["ScatterND"] = (2, lambda m, t: m.op("ScatterND", t[0], m.const(np.array([[1]], np.int64)), m.slice(t[1], [0], [1], [0])))
        ops["ScatterDirect"] = (2, lambda m, t: m.op("ScatterElements", t[0], m.const(np.tile(np.array([1, 0], np.int64).reshape(2, 1, 1, 1), (1, 3, 4, 4))), t[1], axis=0))
    if op >= 16:
        full = np.tile(np.array([1, 0], np.int64).reshape(2, 1, 1, 1), (1, 3, 4, 4))
        for red in ("add", "mul", "max", "min"):
            if red in ("max", "min") and op < 18:
                continue
            ops["Scatter_" + red] = (2, lambda m, t, red=red: m.op("ScatterElements", t[0], m.const(full), t[1], axis=0, reduction=red))
            ops["ScatterND_" + red] = (2, lambda m, t, red=red: m.op("ScatterND", t[0], m.const(np.array([[1], [0]], np.int64)), t[1], reduction=red))
    return ops


def onnx_part(S, tier):
    sh = (2, 3, 4, 4)
    x = mixed(sh, np.float32)
    y, z = mixed(sh, np.float32, 3), mixed(sh, np.float32, 5)

    def params(m, dt, variant=0, chan=None):
        n = {None: 1, 0: 2, 1: 3, 2: 4, 3: 4}[chan]
        sc = (np.arange(n) * 0.01 + 0.05 + variant * 0.02).astype(np.float32)
        zp = (np.arange(n) * 3 + 2 + variant).astype({U8: np.uint8, I8: np.int8, I32: np.int32}[dt])
        if dt == I32:
            zp = zp * 0
        if chan is None:
            sc, zp = sc[0], zp[0]
        return [m.const(sc), m.const(zp)]

    for op in (10, 13, 18):
        names = tensor_ops(op)
        for typ, (nin, apply) in names.items():
            for dt in (U8, I8):
                for chan in (None,) if op < 13 else (None, 0, 1, 3):
                    # arrangement: which inputs are dequantized, which outputs quantized, with the same or other parameters
                    for arr in ("dq-q", "dq", "q", "qdq-qdq", "dq-q-other", "dq-mixed", "q-out", "q-used", "dq-used", "dq-out", "q-twice", "q-twice-other", "chain"):
                        if chan is not None and (arr in ("dq-q-other", "q-twice-other", "q-out", "dq-out", "chain") or dt == I8):
                            continue
                        if arr == "dq-mixed" and nin == 1:
                            continue
                        for noattr in (0, 1):
                            if noattr and chan != 1:
                                continue
                            def f(op=op, typ=typ, nin=nin, apply=apply, dt=dt, chan=chan, arr=arr, noattr=noattr):
                                m = M(op)
                                kw = {} if chan is None or noattr else {"axis": chan}
                                pr = params(m, dt, 0, chan)
                                pr2 = params(m, dt, 1, chan)
                                ins = [m.inp("xyz"[i], F, sh) for i in range(nin)]
                                q = lambda t, p=pr: m.op("QuantizeLinear", t, *p, **kw)
                                d = lambda t, p=pr: m.op("DequantizeLinear", t, *p, **kw)
                                t = list(ins)
                                if arr not in ("q", "q-out", "q-used", "q-twice", "q-twice-other"):
                                    t = [d(q(m.op("Neg", u))) for u in t]
                                if arr == "dq-mixed":
                                    t[-1] = d(q(m.op("Abs", ins[-1]), pr2), pr2)
                                if arr == "dq-used":
                                    m.out(m.op("Relu", t[0]))
                                if arr == "dq-out":
                                    m.out(t[0])
                                r = apply(m, t)
                                for u in r if isinstance(r, list) else [r]:
                                    if arr in ("dq-q", "qdq-qdq", "q", "chain"):
                                        u = d(q(u))
                                        if arr == "chain":
                                            u = d(q(m.op("Identity", m.op("Transpose", u))))
                                        m.out(m.op("Relu", u))
                                    elif arr == "dq-q-other":
                                        m.out(m.op("Relu", d(q(u, pr2), pr2)))
                                    elif arr == "q-out":
                                        m.out(q(u), dt)
                                    elif arr == "q-used":
                                        m.out(m.op("Relu", d(q(u))))
                                        m.out(m.op("Neg", u))
                                    elif arr == "q-twice":
                                        m.out(m.op("Relu", d(q(u))))
                                        m.out(m.op("Neg", d(q(u))))
                                    elif arr == "q-twice-other":
                                        m.out(m.op("Relu", d(q(u))))
                                        m.out(m.op("Neg", d(q(u, pr2), pr2)))
                                    else:
                                        m.out(m.op("Neg", u))
                                return m
                            S.add("onnx/%s/o%d/%s/%s/%s%s" % (typ, op, "u8" if dt == U8 else "i8", arr, chan, "/noattr" if noattr else ""), f,
                                  [dict(zip("xyz", (x, y, z)[:nin]))], (["q_dq_optimizer"], None, ["optimize_transpose", "q_dq_optimizer"]) if tier == "thorough" or typ == "Transpose" else
                                  (["q_dq_optimizer"], None) if op == 13 and dt == U8 else (["q_dq_optimizer"],))
    # dequantized constants behind reshaping operators
    for op in (10, 13, 18):
        for dt, npdt in ((U8, np.uint8), (I8, np.int8), (I32, np.int32)):
            for shape in ((2, 3), (3, 2, 4), (1, 3), (3, 1), (1, 1, 3), (6,), (2, 2)):
                axes = [None] if op < 13 or len(shape) < 1 else [None] + list(range(-len(shape), len(shape)))
                for axis in axes:
                    if tier == "quick" and (op == 18 or (dt == I8 and axis is not None) or axis is not None and axis < 0 and dt == I32):
                        continue
                    n = 1 if axis is None else shape[axis]
                    shapers = [("T" + "".join(map(str, p)), lambda m, t, p=p: m.op("Transpose", t, perm=list(p))) for p in itertools.permutations(range(len(shape)))]
                    shapers += [("Tdef", lambda m, t: m.op("Transpose", t))]
                    size = int(np.prod(shape))
                    targets = {(size,), (-1,), (1, size), (size, 1), (-1, 1), (0, -1), tuple(shape) + (1,), (1,) + tuple(shape), (-1, shape[-1]), (shape[0], -1), (2, -1, 1), (1, -1, shape[-1])}
                    for tg in sorted(targets):
                        shapers.append(("R" + "x".join(map(str, tg)), lambda m, t, tg=tg: m.op("Reshape", t, m.i64(*tg))))
                    for ax in ([0], [1], [-1], [0, 1], [1, 0], [0, -1], [0, 2]):
                        if op < 11 and min(ax) < 0:
                            continue
                        shapers.append(("U" + "_".join(map(str, ax)), lambda m, t, ax=ax: m.unsqueeze(t, ax)))
                    for nm, sp in shapers:
                        for use in ("", "2", "constused", "dqused", "out", "zpless", "noattr", "three"):
                            if use and (dt != U8 or (nm[0] not in "TU" and use not in ("2", "noattr"))) and tier == "quick":
                                continue
                            if use == "noattr" and axis != 1:
                                continue
                            def f(op=op, dt=dt, npdt=npdt, shape=shape, axis=axis, n=n, sp=sp, use=use):
                                m = M(op)
                                a = m.inp("a", F, [])
                                c = m.const(mixed(shape, npdt))
                                sc = (np.arange(n) * 0.25 + 0.5).astype(np.float32)
                                zp = (np.arange(n) * (0 if dt == I32 else 3)).astype(npdt)
                                if axis is None:
                                    sc, zp = sc[0], zp[0]
                                d = m.op("DequantizeLinear", c, m.const(sc), *([] if use == "zpless" else [m.const(zp)]), axis=None if use == "noattr" else axis)
                                r = sp(m, d)
                                if use == "three":
                                    r = m.op("Transpose", m.op("Transpose", r))
                                if use == "out":
                                    m.out(r)
                                    m.out(m.op("Neg", a))
                                    return m
                                m.out(m.op("Add", r, a))
                                if use == "2":
                                    m.out(m.op("Mul", r, a))
                                if use == "constused":
                                    m.out(m.op("Cast", c, to=F))
                                if use == "dqused":
                                    m.out(m.op("Sub", d, a))
                                return m
                            S.add("constdq/%s/o%d/%s/%s/ax%s%s" % ("x".join(map(str, shape)), op, {U8: "u8", I8: "i8", I32: "i32"}[dt], nm, axis, "/" + use if use else ""), f,
                                  [{"a": np.array(1.5, np.float32)}], (["const_dequantize_optimizer"], None) if not use and op == 13 and dt == U8 else (["const_dequantize_optimizer"],))


def cases(tier):
    s = tfcase.Suite()
    fake_quant(s, tier)
    qdq(s, tier)
    S = oxcase.Suite(recorded=True)
    onnx_part(S, tier)
    return s.out + S.out
