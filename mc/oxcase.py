"""ONNX graph -> the optimizers of /repo -> ONNX graph; both are run by onnxruntime (its own optimizations off) and compared."""
import collections

import numpy as np
import onnx
from onnx import TensorProto, helper, numpy_helper

from tf2onnx import optimizer as tfopt
from tf2onnx.graph import GraphUtil
from mc import tfcase
from mc.core import Case, Outcome, sig_of

F, I64, I32, B = TensorProto.FLOAT, TensorProto.INT64, TensorProto.INT32, TensorProto.BOOL


class M:
    """a small builder of ONNX models; consts are Constant nodes (as the converter's graphs have them) or initializers"""

    def __init__(self, opset=18, prefix="", init=False):
        self.opset = opset
        self.nodes, self.inputs, self.outputs, self.inits, self.vinfo = [], [], [], [], []
        self.k = 0
        self.prefix = prefix
        self.init = init

    def name(self, base):
        self.k += 1
        return "%s%s_%d" % (self.prefix, base, self.k)

    def inp(self, name, dtype, shape):
        self.inputs.append(helper.make_tensor_value_info(name, dtype, shape))
        return name

    def const(self, arr, name=None, dtype=None):
        a = np.asarray(arr, dtype)
        n = name or self.name("c")
        if self.init:
            self.inits.append(numpy_helper.from_array(a, n))
        else:
            self.nodes.append(helper.make_node("Constant", [], [n], name=n, value=numpy_helper.from_array(a, n)))
        return n

    def i64(self, *v):
        return self.const(np.array(v, np.int64))

    def op(self, typ, *inputs, nout=1, outs=None, domain="", **attrs):
        n = self.name(typ)
        outs = outs or (["%s:%d" % (n, i) for i in range(nout)])
        self.nodes.append(helper.make_node(typ, list(inputs), list(outs), name=n, domain=domain,
                                           **{k: v for k, v in attrs.items() if v is not None}))
        return outs[0] if len(outs) == 1 else outs

    def out(self, name, dtype=F, shape=None):
        self.outputs.append(helper.make_tensor_value_info(name, dtype, shape))
        return self

    # ---- operators whose signature depends on the opset
    def squeeze(self, x, axes):
        return self.op("Squeeze", x, axes=axes) if self.opset < 13 else self.op("Squeeze", x, self.i64(*axes))

    def unsqueeze(self, x, axes):
        return self.op("Unsqueeze", x, axes=axes) if self.opset < 13 else self.op("Unsqueeze", x, self.i64(*axes))

    def reduce(self, typ, x, axes=None, keepdims=None):
        since = 13 if typ == "ReduceSum" else 18
        if self.opset < since:
            return self.op(typ, x, axes=axes, keepdims=keepdims)
        return self.op(typ, x, *([self.i64(*axes)] if axes is not None else []), keepdims=keepdims)

    def slice(self, x, starts, ends, axes=None, steps=None):
        if self.opset < 10:
            return self.op("Slice", x, starts=starts, ends=ends, axes=axes)
        a = [self.i64(*starts), self.i64(*ends)]
        if axes is not None or steps is not None:
            a.append(self.i64(*axes) if axes is not None else "")
        if steps is not None:
            a.append(self.i64(*steps))
        return self.op("Slice", x, *a)

    def pad(self, x, pads, value=None, mode=None, axes=None):
        if self.opset < 11:
            return self.op("Pad", x, pads=pads, value=value, mode=mode)
        a = [self.i64(*pads)]
        if value is not None or axes is not None:
            a.append(self.const(np.float32(value)) if value is not None else "")
        if axes is not None:
            a.append(self.i64(*axes))
        return self.op("Pad", x, *a, mode=mode)

    def split(self, x, parts, axis, nout=None):
        if parts is None:
            kw = {"num_outputs": nout} if self.opset >= 18 else {}
            return self.op("Split", x, nout=nout, axis=axis, **kw)
        if self.opset < 13:
            return self.op("Split", x, nout=len(parts), axis=axis, split=parts)
        return self.op("Split", x, self.i64(*parts), nout=len(parts), axis=axis)

    def graph(self, name="g"):
        return helper.make_graph(self.nodes, name, self.inputs, self.outputs, initializer=self.inits,
                                 value_info=self.vinfo)

    def model(self, domains=()):
        ops = [helper.make_opsetid("", self.opset)] + [helper.make_opsetid(d, v) for d, v in domains]
        return helper.make_model(self.graph(), opset_imports=ops, ir_version=8)


def all_optimizers():
    return collections.OrderedDict(tfopt._get_optimizers())


def optimize(model, names):
    opts = all_optimizers()
    if names is not None:
        opts = collections.OrderedDict((n, opts[n]) for n in names)
    m = onnx.ModelProto()
    m.CopyFrom(model)           # the loader renames Constant nodes in place
    return GraphUtil.optimize_model_proto(m, catch_errors=True, return_graph=True, optimizers=opts)


class Suite:
    """build() -> M or ModelProto; feeds: [{name: array}]; pipes: optimizer lists to try (None = the product's pipeline)"""

    def __init__(self, pipes=(None,), recorded=False):
        self.out, self.ids, self.pipes, self.recorded = [], set(), pipes, recorded

    def add(self, cid, build, feeds, pipes=None, tol=(1e-4, 1e-5), extra_ops=False, recorded=True):
        if cid in self.ids:
            return
        self.ids.add(cid)
        self.out.append(Case(cid, dict(build=build, feeds=feeds, pipes=pipes or self.pipes, tol=tol, extra_ops=extra_ops, recorded=self.recorded and recorded)))


def run_case(case):
    s = case.spec
    model = s["build"]()
    if isinstance(model, M):
        model = model.model()
    try:
        sess = tfcase.ort_session(model, s["extra_ops"])
    except Exception as e:  # pylint: disable=broad-except
        return Outcome("skip", "not a valid model: %s" % str(e)[:300], evals=0)
    names = [o.name for o in model.graph.output]
    ins = [i.name for i in model.graph.input]
    feeds, want = [], []
    for f in s["feeds"]:
        try:
            want.append(sess.run(names, f))
            feeds.append(f)
        except Exception as e:  # pylint: disable=broad-except
            continue            # the program itself rejects this input
    if not feeds:
        return Outcome("skip", "the original model does not run", evals=0)
    evals, sigs = 0, []
    for pipe in s["pipes"]:
        label = "+".join(pipe) if pipe else "pipeline"
        try:
            opt, graph = optimize(model, pipe)
        except Exception as e:  # pylint: disable=broad-except
            return Outcome("raised", "%s: %s: %s" % (label, type(e).__name__, str(e)[:400]))
        if [o.name for o in opt.graph.output] != names:
            return Outcome("interface", "%s: outputs %s became %s" % (label, names, [o.name for o in opt.graph.output]))
        oins = [i.name for i in opt.graph.input]
        if [i for i in oins if i not in ins] or len(set(oins)) != len(oins):
            return Outcome("interface", "%s: inputs %s became %s" % (label, ins, oins))
        try:
            onnx.checker.check_model(opt)
        except Exception as e:  # pylint: disable=broad-except
            if "Field 'shape' of 'type' is required" not in str(e):
                return Outcome("invalid", "%s: onnx.checker: %s" % (label, str(e)[:400]))
        try:
            so = tfcase.ort_session(opt, s["extra_ops"])
        except Exception as e:  # pylint: disable=broad-except
            return Outcome("unrunnable" if any(k in str(e) for k in tfcase.NO_KERNEL) else "invalid", "%s: %s" % (label, str(e)[:500]))
        for f, w in zip(feeds, want):
            try:
                got = so.run(names, {k: v for k, v in f.items() if k in oins})
            except Exception as e:  # pylint: disable=broad-except
                return Outcome("runtime", "%s: %s feeds %s" % (label, str(e)[:400], tfcase.short(f)))
            for n, a, b in zip(names, w, got):
                d = values_differ(a, b, s["tol"])
                if d:
                    return Outcome("mismatch", "%s: %s: %s; feeds %s; ops %s" % (
                        label, n, d, tfcase.short(f), [x.op_type for x in opt.graph.node][:25]))
                evals += 1
        bad = s["recorded"] and wrong_value_info(opt, graph, feeds[0], oins, s["extra_ops"])
        if bad:
            return Outcome("declared", "%s: %s; feeds %s; ops %s" % (label, bad, tfcase.short(feeds[0]), [x.op_type for x in opt.graph.node][:25]))
        sigs.append(tfcase.graph_sig(opt))
    return Outcome("ok", sig=sig_of(*sigs), evals=evals)


def wrong_value_info(opt, g, feed, oins, extra_ops):
    """the shapes and types the optimized graph records for its tensors, against what the tensors really are"""
    if g is None:
        return None
    names = []
    have = {i.name for i in opt.graph.initializer}
    m = onnx.ModelProto()
    m.CopyFrom(opt)
    del m.graph.output[:]
    for n in opt.graph.node:
        for o in n.output:
            if o and (g.get_shape(o) is not None or g.get_dtype(o)):
                names.append(o)
                m.graph.output.append(helper.make_empty_tensor_value_info(o))
    if not names:
        return None
    try:
        sess = tfcase.ort_session(m, extra_ops)
        got = sess.run(names, {k: v for k, v in feed.items() if k in oins})
    except Exception as e:  # pylint: disable=broad-except
        return None
    for n, v in zip(names, got):
        if isinstance(v, list):
            continue
        s = g.get_shape(n)
        if s is not None and (len(s) != v.ndim or any(d >= 0 and d != e for d, e in zip(s, v.shape))):
            return "%s is recorded with shape %s, is %s" % (n, s, v.shape)
        t = g.get_dtype(n)
        if t and v.dtype.kind not in "OSU" and helper.tensor_dtype_to_np_dtype(t) != v.dtype:
            return "%s is recorded with type %s, is %s" % (n, t, v.dtype)
    return None


def values_differ(a, b, tol):
    if isinstance(a, list) or isinstance(b, list):     # sequences
        if not (isinstance(a, list) and isinstance(b, list)) or len(a) != len(b):
            return "sequence differs"
        for x, y in zip(a, b):
            d = tfcase.values_differ(x, y, tol)
            if d:
                return d
        return None
    return tfcase.values_differ(a, b, tol)


def run_group(cases):
    return [run_case(c) for c in cases]


def define(module, pid, rule, technique=None, assumptions=()):
    module["ID"] = pid
    module["LEVEL"] = "exploration"
    module["TECHNIQUE"] = technique or ("bounded-exhaustive exploration of small ONNX graphs through the real optimizers, the "
                                        "unoptimized graph in onnxruntime as reference")
    module["RULE"] = rule
    module["ASSUMPTIONS"] = ["onnxruntime CPU kernels with graph optimizations disabled are the reference semantics of ONNX",
                             "float results are compared within rtol 1e-4 / atol 1e-5"] + list(assumptions)
    module["GROUP"] = 8
    module["setup"] = tfcase.quiet
    module["run_group"] = run_group
