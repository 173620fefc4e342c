"""C09: recurrent layers and cells (Keras LSTM / GRU / SimpleRNN / Bidirectional, TF1 cells, hand-written cells)."""
import itertools
import zlib

import numpy as np
import tensorflow as tf
import tf_keras as keras

from mc import fncase, tfcase
from mc.fncase import Suite
from mc.tfcase import mixed

fncase.define(globals(), "C09")
F = "float32"
v1 = tf.compat.v1
L = keras.layers


def seed(layer_or_vars):
    """deterministic, asymmetric weights"""
    ws = layer_or_vars.weights if hasattr(layer_or_vars, "weights") else layer_or_vars
    for k, w in enumerate(ws):
        w.assign(mixed(w.shape, F, k) * 0.3)


def keras_prog(build, shape, call=None):
    def make():
        with tf.init_scope():
            layer = build()
            dummy = tf.zeros([1 if d is None else d for d in shape])
            (call or (lambda l, x, *a: l(x)))(layer, dummy) if call is None else layer(dummy)
            seed(layer)
        return (lambda x, *a: layer(x)) if call is None else (lambda x, *a: call(layer, x, *a))
    return make


def cases(tier):
    s = Suite()
    thorough = tier == "thorough"
    B, T, C, H = 2, 3, 2, 3
    x = mixed([B, T, C], F) * 0.5
    sx = [([None, T, C], F)]
    sxd = [([None, None, C], F)]
    lens = [[x, np.array(l, np.int32)] for l in ([3, 2], [1, 3])]

    def add(cid, cell, opset=18, sig=sx, feeds=None, call=None, **kw):
        s.add(cid, None, sig, feeds or [[x], [x[:1]]], opset, make=keras_prog(cell, [1, T, C], call), **kw)

    # ---- Keras layers: every combination of the layer options
    for nm, cls in (("lstm", L.LSTM), ("gru", L.GRU), ("rnn", L.SimpleRNN)):
        for rs, rst, gb, ub in itertools.product((False, True), repeat=4):
            if not thorough and ((gb and rst) or (rs and rst and ub)):
                continue
            for o in (18, 13, 9) if thorough else ((18, 10) if rs else (18,)):
                add("%s/seq%d/state%d/back%d/bias%d" % (nm, rs, rst, gb, ub),
                    lambda cls=cls, a=(rs, rst, gb, ub): cls(H, return_sequences=a[0], return_state=a[1], go_backwards=a[2], use_bias=a[3]), o)
        for rs in (False, True):
            add("%s/dynT/seq%d" % (nm, rs), lambda cls=cls, rs=rs: cls(H, return_sequences=rs), 18, sxd, [[x], [x[:, :1]]])
            add("%s/unroll/seq%d" % (nm, rs), lambda cls=cls, rs=rs: cls(H, return_sequences=rs, unroll=True))
            add("%s/timemajor/seq%d" % (nm, rs), lambda cls=cls, rs=rs: cls(H, return_sequences=rs, time_major=True), 18, [([None, 3, C], F)], [[x]])
            add("%s/units1/seq%d" % (nm, rs), lambda cls=cls, rs=rs: cls(1, return_sequences=rs))
            add("%s/mask/seq%d" % (nm, rs), lambda cls=cls, rs=rs: cls(H, return_sequences=rs), 18, [([None, T, C], F), ([None], "int32")], lens,
                call=lambda l, x, n: l(x, mask=tf.sequence_mask(n, T)))
            add("%s/zeroout/seq%d" % (nm, rs), lambda cls=cls, rs=rs: cls(H, return_sequences=rs, **({"zero_output_for_mask": True})), 18,
                [([None, T, C], F), ([None], "int32")], lens, call=lambda l, x, n: l(x, mask=tf.sequence_mask(n, T)))
            ns = 2 if nm == "lstm" else 1
            st = [mixed([B, H], F, 20 + k) for k in range(ns)]
            add("%s/init/seq%d" % (nm, rs), lambda cls=cls, rs=rs: cls(H, return_sequences=rs), 18, sx + [([None, H], F)] * ns, [[x] + st],
                call=lambda l, x, *st: l(x, initial_state=list(st)))
            add("%s/initconst/seq%d" % (nm, rs), lambda cls=cls, rs=rs: cls(H, return_sequences=rs), 18, [([B, T, C], F)], [[x]],
                call=lambda l, x, ns=ns, st=st: l(x, initial_state=[tf.constant(v) for v in st]))
            if ns == 2:
                add("%s/inithalf/seq%d" % (nm, rs), lambda cls=cls, rs=rs: cls(H, return_sequences=rs), 18, sx + [([None, H], F)], [[x] + st[:1]],
                    call=lambda l, x, h: l(x, initial_state=[h, tf.zeros_like(h)]))
                add("%s/initswap/seq%d" % (nm, rs), lambda cls=cls, rs=rs: cls(H, return_sequences=rs), 18, sx + [([None, H], F)] * 2, [[x] + st],
                    call=lambda l, x, h, c: l(x, initial_state=[c, h]))
        for act in ("tanh", "relu", "sigmoid", "linear", "elu", "selu", "softsign", "hard_sigmoid", "softplus"):
            add("%s/act/%s" % (nm, act), lambda cls=cls, a=act: cls(H, activation=a, return_sequences=True))
            if thorough or act in ("relu", "elu", "hard_sigmoid"):
                add("%s/act/%s" % (nm, act), lambda cls=cls, a=act: cls(H, activation=a), 11)
            if nm != "rnn":
                add("%s/ract/%s" % (nm, act), lambda cls=cls, a=act: cls(H, recurrent_activation=a, return_sequences=True))
            if nm != "rnn" and (thorough or act in ("relu", "linear", "hard_sigmoid")):
                add("%s/ract/%s/nobias" % (nm, act), lambda cls=cls, a=act: cls(H, recurrent_activation=a, use_bias=False))
                add("%s/actboth/%s" % (nm, act), lambda cls=cls, a=act: cls(H, activation=a, recurrent_activation="hard_sigmoid"))
        if nm == "lstm":
            add("lstm/noforget", lambda: L.LSTM(H, unit_forget_bias=False))
        if nm == "gru":
            for ra, rs, ub, gb in itertools.product((False, True), repeat=4):
                add("gru/ra%d/seq%d/bias%d/back%d" % (ra, rs, ub, gb), lambda a=(ra, rs, ub, gb): L.GRU(H, reset_after=a[0], return_sequences=a[1], use_bias=a[2], go_backwards=a[3]), 18)
                if not thorough and (rs != ub or gb):
                    continue
                add("gru/ra%d/seq%d/bias%d/back%d/state" % (ra, rs, ub, gb), lambda a=(ra, rs, ub, gb): L.GRU(H, reset_after=a[0], return_sequences=a[1], use_bias=a[2], go_backwards=a[3], return_state=True), 11)
            for act, ract, ra in itertools.product(("relu", "tanh", "sigmoid"), ("sigmoid", "hard_sigmoid"), (False, True)):
                add("gru/acts/%s/%s/ra%d" % (act, ract, ra), lambda a=(act, ract, ra): L.GRU(H, activation=a[0], recurrent_activation=a[1], reset_after=a[2], return_sequences=True))
        # cells inside the generic RNN wrapper
        cell = {"lstm": L.LSTMCell, "gru": L.GRUCell, "rnn": L.SimpleRNNCell}[nm]
        for rs, gb in itertools.product((False, True), repeat=2):
            add("rnncell/%s/seq%d/back%d" % (nm, rs, gb), lambda cell=cell, a=(rs, gb): L.RNN(cell(H), return_sequences=a[0], go_backwards=a[1]))
        add("rnnstacked/%s" % nm, lambda cell=cell: L.RNN([cell(H), cell(2)], return_sequences=True))
        # bidirectional
        for mm in ("concat", "sum", "mul", "ave", None):
            for rs in (False, True) if thorough or mm in ("concat", None) else (True,):
                for o in (18, 10) if thorough or mm == "concat" else (18,):
                    add("bi/%s/%s/seq%d" % (nm, mm, rs), lambda cls=cls, a=(mm, rs): L.Bidirectional(cls(H, return_sequences=a[1]), merge_mode=a[0]), o)
        add("bi/%s/state" % nm, lambda cls=cls: L.Bidirectional(cls(H, return_sequences=True, return_state=True)))
        add("bi/%s/state/noseq" % nm, lambda cls=cls: L.Bidirectional(cls(H, return_state=True)))
        add("bi/%s/nobias" % nm, lambda cls=cls: L.Bidirectional(cls(H, use_bias=False, return_sequences=True)))
        add("bi/%s/mixed" % nm, lambda cls=cls: L.Bidirectional(cls(H, return_sequences=True), backward_layer=cls(H, return_sequences=True, go_backwards=True, use_bias=False)))
        add("bi/%s/mask" % nm, lambda cls=cls: L.Bidirectional(cls(H, return_sequences=True)), 18, [([None, T, C], F), ([None], "int32")], lens, call=lambda l, x, n: l(x, mask=tf.sequence_mask(n, T)))
        # stacks
        for rs in (False, True):
            add("stack/%s/seq%d" % (nm, rs), lambda cls=cls, rs=rs: keras.Sequential([cls(H, return_sequences=True), cls(2, return_sequences=rs)]))
            add("stackbi/%s/seq%d" % (nm, rs), lambda cls=cls, rs=rs: keras.Sequential([L.Bidirectional(cls(H, return_sequences=True)), L.Bidirectional(cls(2, return_sequences=rs))]))
        add("masking/%s" % nm, lambda cls=cls: keras.Sequential([L.Masking(0.), cls(H, return_sequences=True)]), 18, sx, [[x * np.array([[[1], [0], [1]]], F)], [x * np.array([[[1], [1], [0]], [[0], [1], [1]]], F)]])
        add("embedding/%s" % nm, lambda cls=cls: keras.Sequential([L.Dense(4, "relu"), cls(H), L.Dense(2)]))
        add("twouse/%s" % nm, lambda cls=cls: cls(H, return_sequences=True), 18, sx, [[x]], call=lambda l, x: [l(x), l(x * 2.)])
        add("revinput/%s" % nm, lambda cls=cls: cls(H, return_sequences=True), 18, sx, [[x]], call=lambda l, x: tf.reverse(l(tf.reverse(x, [1])), [1]))
        add("revdiff/%s" % nm, lambda cls=cls: cls(H, return_sequences=True), 18, sx, [[x]], call=lambda l, x: [l(x), tf.reverse(l(tf.reverse(x, [1])), [1])])
    add("convlstm", lambda: L.ConvLSTM1D(2, 2, padding="same", return_sequences=True), 18, [([None, 3, 4, 2], F)], [[mixed([1, 3, 4, 2], F)]]) if False else None
    # ---- the fused cell of TensorFlow 1: every attribute, every output
    for (b, c, h), fb, clip, peep, o in itertools.product(((2, 3, 4), (1, 2, 1), (3, 1, 2))[:3 if thorough else 1], (1.0, 0.0, -0.5), (-1.0, 0.0, 0.3, 3.0), (False, True), (18, 15, 12, 9) if thorough else (18, 9)):
        W8 = [mixed([c + h, 4 * h], F, 3) * .4] + [mixed([h], F, 4 + j) * .5 for j in range(3)] + [mixed([4 * h], F, 8) * .3]

        def block(x, cs, hp, *w, fb=fb, clip=clip, peep=peep, W8=W8):
            w = w or [tf.constant(v) for v in W8]
            return list(tf.raw_ops.LSTMBlockCell(x=x, cs_prev=cs, h_prev=hp, w=w[0], wci=w[1], wcf=w[2], wco=w[3], b=w[4], forget_bias=fb, cell_clip=clip, use_peephole=peep))
        fx = [mixed([b, c], F), mixed([b, h], F, 1), mixed([b, h], F, 2)]
        nm = "blockcell/%d%d%d/f%g/c%g/p%d" % (b, c, h, fb, clip, peep)
        s.add(nm + "/dy", block, [([None, c], F), ([None, h], F), ([None, h], F)], [fx, [-v for v in fx]], o)
        if o == 18:
            s.add(nm + "/w", block, [([b, c], F), ([b, h], F), ([b, h], F)] + [(list(v.shape), F) for v in W8], [fx + W8], o)
            s.add(nm + "/one", lambda *a, f=block: f(*a)[6], [([None, c], F), ([None, h], F), ([None, h], F)], [fx], o)
    # ---- hand-written cells (custom RNN): every update rule x state layout
    W = mixed([C, H], F, 3) * .4
    U = mixed([H, H], F, 4) * .3
    upd = {
        "tanh": lambda x, h: tf.tanh(x @ W + h @ U), "relu": lambda x, h: tf.nn.relu(x @ W + h @ U), "add": lambda x, h: x @ W + h,
        "gate": lambda x, h: h * tf.sigmoid(x @ W) + tf.tanh(h @ U) * (1. - tf.sigmoid(x @ W)), "concat": lambda x, h: tf.tanh(tf.concat([x, h], 1) @ tf.constant(np.concatenate([W, U]))),
        "cond": lambda x, h: tf.where(tf.reduce_sum(x, 1, keepdims=True) > 0., x @ W, h), "old": lambda x, h: h,
    }
    for nm, f in upd.items():
        for rev in (False, True):
            def prog(x, f=f, rev=rev):
                xs = tf.transpose(x, [1, 0, 2])
                if rev:
                    xs = tf.reverse(xs, [0])
                h0 = tf.zeros([tf.shape(x)[0], H])
                ys = tf.scan(lambda h, v: f(v, h), xs, initializer=h0)
                return tf.transpose(ys, [1, 0, 2])

            def prog2(x, f=f, rev=rev):
                ta = tf.TensorArray(F, size=T).unstack(tf.transpose(x, [1, 0, 2]))
                out = tf.TensorArray(F, size=T, element_shape=[None, H])

                def body(t, h, out):
                    h = f(ta.read(t), h)
                    return t + 1, h, out.write(t, h * 2.)
                _, h, out = tf.while_loop(lambda t, *a: t < T, body, [tf.constant(0), tf.ones([tf.shape(x)[0], H]), out],
                                          shape_invariants=[tf.TensorShape([]), tf.TensorShape([None, H]), None] if False else None)
                return h, out.stack()
            for o in (18, 11) if thorough else (18,):
                s.add("custom/scan/%s/rev%d" % (nm, rev), prog, sx, [[x]], o)
                if not rev:
                    s.add("custom/loop/%s" % nm, prog2, [([2, T, C], F)], [[x]], o)
    # ---- TF1 cells and dynamic_rnn
    rc = v1.nn.rnn_cell
    from tensorflow.python.ops import control_flow_util

    cells = {
        "basiclstm": lambda: rc.BasicLSTMCell(H), "lstm": lambda: rc.LSTMCell(H), "lstmpeep": lambda: rc.LSTMCell(H, use_peepholes=True),
        "lstmforget": lambda: rc.LSTMCell(H, forget_bias=0.3), "lstmrelu": lambda: rc.LSTMCell(H, activation=tf.nn.relu), "lstmproj": lambda: rc.LSTMCell(H, num_proj=2),
        "lstmnotuple": lambda: rc.LSTMCell(H, state_is_tuple=False), "gru": lambda: rc.GRUCell(H), "grurelu": lambda: rc.GRUCell(H, activation=tf.nn.relu),
        "basicrnn": lambda: rc.BasicRNNCell(H), "rnnrelu": lambda: rc.BasicRNNCell(H, activation=tf.nn.relu),
        "multi": lambda: rc.MultiRNNCell([rc.LSTMCell(H), rc.LSTMCell(2)]), "multigru": lambda: rc.MultiRNNCell([rc.GRUCell(H), rc.GRUCell(2)]),
        "residual": lambda: rc.ResidualWrapper(rc.LSTMCell(C)), "residualgru": lambda: rc.ResidualWrapper(rc.GRUCell(C)),
        "keep": lambda: rc.DropoutWrapper(rc.LSTMCell(H), 1.0, 1.0), "scaled": lambda: Scaled(rc.LSTMCell(H)), "scaledgru": lambda: Scaled(rc.GRUCell(H)),
        "grusig": lambda: rc.GRUCell(H, activation=tf.sigmoid), "gruelu": lambda: rc.GRUCell(H, activation=tf.nn.elu), "gruleaky": lambda: rc.GRUCell(H, activation=tf.nn.leaky_relu),
        "lstmsig": lambda: rc.LSTMCell(H, activation=tf.sigmoid),
    }

    class Scaled(rc.RNNCell):
        """a wrapper that changes the input of the cell"""
        def __init__(self, cell):
            super().__init__()
            self._cell, self._reuse = cell, None

        state_size = property(lambda self: self._cell.state_size)
        output_size = property(lambda self: self._cell.output_size)

        def zero_state(self, n, dtype):
            return self._cell.zero_state(n, dtype)

        def __call__(self, x, state, scope=None):
            return self._cell(x * 2. - 1., state)

    class V1Prog:
        """variables of the TF1 graph become constants with fixed values (custom getter)"""
        def __init__(self, cell, mode, v2):
            self.cell, self.mode, self.v2 = cell, mode, v2

        def __call__(self, x, *rest):
            def getter(getter, name, shape=None, dtype=None, **kw):
                # weights live outside of the loop, like variables: that is what the fusing rewriters look for
                with outer.as_default(), tf.control_dependencies(None):
                    return tf.constant(mixed(shape, F, zlib.crc32(name.encode()) % 7) * 0.3)
            outer = v1.get_default_graph()
            old = control_flow_util.ENABLE_CONTROL_FLOW_V2
            control_flow_util.ENABLE_CONTROL_FLOW_V2 = self.v2
            try:
                with v1.variable_scope("vs", custom_getter=getter, reuse=v1.AUTO_REUSE):
                    kw = {}
                    if self.mode.startswith("len"):
                        kw["sequence_length"] = rest[0]
                    if self.mode == "tm":
                        kw["time_major"] = True
                        x = tf.transpose(x, [1, 0, 2])
                    if self.mode == "bi":
                        o, st = v1.nn.bidirectional_dynamic_rnn(self.cell(), self.cell(), x, dtype=tf.float32)
                        return [o[0], o[1]] + tf.nest.flatten(st)
                    if self.mode == "bilen":
                        o, st = v1.nn.bidirectional_dynamic_rnn(self.cell(), self.cell(), x, dtype=tf.float32, sequence_length=rest[0])
                        return [tf.concat(o, 2)] + tf.nest.flatten(st)
                    cell = self.cell()
                    if self.mode.startswith("init"):
                        # a state to start from that isn't zero and differs between the parts of the state
                        zero = cell.zero_state(2, tf.float32)
                        leaves = [tf.constant(mixed(z.shape.as_list(), F, 3 + 2 * i) * 0.4) for i, z in enumerate(tf.nest.flatten(zero))]
                        if self.mode in ("initrun", "initsame"):
                            leaves = [q * rest[0] for q in leaves]
                        if self.mode == "initsame":
                            one = tf.constant(mixed([2, H], F, 3) * 0.4) * rest[0]
                            leaves = [one] * len(leaves)
                        kw["initial_state"] = tf.nest.pack_sequence_as(zero, leaves)
                    o, st = v1.nn.dynamic_rnn(cell, x, dtype=tf.float32, **kw)
                    if self.mode == "out":
                        return [o]
                    if self.mode == "initsame":
                        return [o, one + 1.] + tf.nest.flatten(st)
                    if self.mode == "state":
                        return tf.nest.flatten(st)
                    return [o] + tf.nest.flatten(st)
            finally:
                control_flow_util.ENABLE_CONTROL_FLOW_V2 = old
    class BiProg:
        """a forward rnn and an rnn between two reverses, which only sometimes are one bidirectional rnn"""
        def __init__(self, cell, rin, rout, lf, lb, tm, extra):
            self.a = cell, rin, rout, lf, lb, tm, extra

        def __call__(self, x, n1, n2):
            cell, rin, rout, lf, lb, tm, extra = self.a

            def getter(getter, name, shape=None, dtype=None, **kw):
                with outer.as_default(), tf.control_dependencies(None):
                    return tf.constant(mixed(shape, F, zlib.crc32(name.encode()) % 7) * 0.3)

            def rev(v, kind):
                t = 0 if tm else 1
                if kind in ("n1", "n2"):
                    return v1.reverse_sequence(v, {"n1": n1, "n2": n2}[kind], seq_axis=t, batch_axis=1 - t)
                if kind == "n1b":
                    return v1.reverse_sequence(v, n1, seq_axis=1 - t, batch_axis=t)
                return tf.reverse(v, {"t": [t], "b": [1 - t], "f": [2], "tn": [t - 3], "tf": [t, 2]}[kind]) if kind != "-" else v
            outer = v1.get_default_graph()
            old = control_flow_util.ENABLE_CONTROL_FLOW_V2
            control_flow_util.ENABLE_CONTROL_FLOW_V2 = False
            lens = {"-": None, "n1": n1, "n2": n2, "c": tf.constant([3, 2, 1]), "c2": tf.constant([1, 3, 2])}
            try:
                with v1.variable_scope("vs", custom_getter=getter, reuse=v1.AUTO_REUSE):
                    xr = rev(x, rin)
                    fw, sf = v1.nn.dynamic_rnn(cell(), x, lens[lf], dtype=tf.float32, time_major=tm, scope="fw")
                    bw, sb = v1.nn.dynamic_rnn(cell(), xr, lens[lb], dtype=tf.float32, time_major=tm, scope="bw")
                    res = [fw, rev(bw, rout)] + tf.nest.flatten(sf) + tf.nest.flatten(sb)
                    if extra == "xr":
                        res.append(xr * 2.)
                    if extra == "last":
                        res[1] = bw[-1] if tm else bw[:, -1]
                    if extra == "bw":
                        res.append(bw + 1.)
                    if extra == "bi2":
                        bw2, sb2 = v1.nn.dynamic_rnn(cell(), xr, lens[lb], dtype=tf.float32, time_major=tm, scope="bw2")
                        fw2, sf2 = v1.nn.dynamic_rnn(cell(), x, lens[lf], dtype=tf.float32, time_major=tm, scope="fw2")
                        res += [fw2, rev(bw2, rout)]
                    return [r + tf.cast(n1[0] * 0 + n2[0] * 0, tf.float32) for r in res]
            finally:
                control_flow_util.ENABLE_CONTROL_FLOW_V2 = old
    g = tfcase.Suite()
    x33 = mixed([3, 3, C], F) * 0.5
    bifeeds = [[x33, np.array([3, 1, 2], np.int32), np.array([2, 3, 3], np.int32)]]
    bisig = [([3, 3, C], F), ([3], "int32"), ([3], "int32")]
    revs = ("t", "b", "f", "tn", "tf", "n1", "n2", "n1b", "-")
    lenk = ("-", "n1", "n2", "c", "c2")
    for nm in ("lstm", "gru"):
        for rin, rout, lf, lb, tm in itertools.product(revs, revs, lenk, lenk, (False, True)):
            # quick: the pairs that agree with each other, and those that differ from such a pair in one thing
            key = {"t": "-", "tn": "-", "n1": "n1", "n2": "n2"}
            want = key.get(rin)
            off = (rout not in key or key[rout] != want) + (lf != want) + (lb != want) + (rin not in key)
            if off > (2 if thorough else 1) or (nm == "gru" or tm) and not thorough and off and (rin + rout + lf + lb).count("n2"):
                continue
            if not thorough and (tm or nm == "gru") and off:
                continue
            g.add("bimix/%s/%s_%s_%s_%s/tm%d" % (nm, rin, rout, lf, lb, tm), BiProg(cells[nm], rin, rout, lf, lb, tm, ""), bisig, bifeeds, 18)
        for extra, (r, l), tm in itertools.product(("xr", "last", "bw", "bi2"), (("t", "-"), ("n1", "n1")), (False, True)):
            g.add("bimix/%s/%s/%s_%s/tm%d" % (nm, extra, r, l, tm), BiProg(cells[nm], r, r, l, l, tm, extra), bisig, bifeeds, 18)
    for nm, c in cells.items():
        for mode in ("both", "out", "state", "len", "tm", "bi", "bilen", "init", "initrun") + (("lenshort", "initsame") if nm in ("lstm", "gru") else ()):
            for v2 in (True, False):
                sig = [([None, T, C], F)] + ([([None], "int32")] if "len" in mode else [])
                feeds = [[a, l] for a, l in lens] if "len" in mode else [[x], [x[:1]]]
                if mode == "lenshort":
                    feeds = [[x, np.array([2, 2], np.int32)]]
                if mode.startswith("init"):
                    sig, feeds = [([2, T, C], F)], [[x[:2]]]
                    if mode in ("initrun", "initsame"):
                        sig, feeds = sig + [([], F)], [[x[:2], np.array(0.7, np.float32)], [x[:2], np.array(-1, np.float32)]]
                for o in (18, 9):
                    if o == 9 and mode in ("tm", "state", "init"):
                        continue
                    # quick: all modes for the three basic cells, the modes that use different code for the rest
                    if not thorough and (o == 9 or mode not in ("len", "bilen", "initrun")) and nm not in ("lstm", "gru", "basicrnn") and \
                            (v2 or mode not in ("both", "init")):
                        continue
                    if not thorough and v2 and nm not in ("lstm", "gru", "basicrnn", "lstmrelu", "multi", "residual", "gruelu"):
                        continue
                    if not v2:
                        g.add("tf1/%s/%s" % (nm, mode), V1Prog(c, mode, v2), sig, feeds, o)
                    elif not nm.startswith("multi") and (o == 18 or mode in ("both", "bi", "initrun")):
                        s.add("tf1v2/%s/%s" % (nm, mode), V1Prog(c, mode, v2), sig, feeds, o if o == 18 else 11)
    return s.out + g.out


def run_group(cases):
    return [tfcase.run_joint([c]) if "build" in c.spec else fncase.run_case(c) for c in cases]
