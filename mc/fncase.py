"""tf.function -> convert.from_function (the product's own entry point, with freezing and inlining) -> onnxruntime."""
import contextlib
import io
import shutil
import tempfile

import numpy as np
import tensorflow as tf

from tf2onnx import convert, tf_loader
from mc import tfcase
from mc.core import Case, Outcome

DEFAULT_OPSET = 18


class Suite:
    def __init__(self):
        self.out = []
        self.ids = set()

    def add(self, cid, fn, sig, feeds, opset=DEFAULT_OPSET, tol=(1e-4, 1e-5), kw=None, post=None, extra_ops=False, want_fn=None, make=None, conv=None):
        """fn(*tensors); sig: [(shape, dtype)]; feeds: [[arrays]]"""
        cid = "%s/o%d" % (cid, opset)
        if cid in self.ids:
            return
        self.ids.add(cid)
        self.out.append(Case(cid, dict(fn=fn, sig=sig, feeds=feeds, opset=opset, tol=tol, kw=kw or {}, post=post,
                                       extra_ops=extra_ops, want_fn=want_fn, make=make, conv=conv)))


def tf_value(v, dtype):
    v = np.asarray(v)
    if v.dtype.kind in "SUO":
        return tf.constant(v.tolist(), tf.string)
    return tf.constant(v, dtype)


def conv_trackable(func, sig, opset, kw, resources):
    """the way from_keras goes: the object that owns the function and its resources is traversed"""
    module = tf.Module()
    module.resources = resources
    module.f = func
    cf = func.get_concrete_function()
    captured = [t.name for _, t in cf.graph.captures]
    ins = [t.name for t in cf.inputs if t.name not in captured]
    outs = [t.name for t in cf.outputs if t.dtype != tf.dtypes.resource]
    graph, tables = tf_loader.from_trackable(module, cf, ins, outs, False)
    rename = convert.tensor_names_from_structed(cf, ins, outs)
    model, _ = convert._convert_common(  # pylint: disable=protected-access
        graph, name="m", continue_on_error=True, opset=opset, input_names=ins, output_names=outs,
        tensors_to_rename=rename, initialized_tables=tables, **kw)
    return model


def conv_saved_model(func, sig, opset, kw, resources):
    """the way the command line goes"""
    module = tf.Module()
    module.resources = resources
    n = len(tf.nest.flatten(func.get_concrete_function().structured_outputs))
    named = tf.function(lambda *a: dict(zip(["y%02d" % i for i in range(n)], tf.nest.flatten(func(*a)))), input_signature=sig, autograph=False)
    module.f = named
    d = tempfile.mkdtemp(prefix="mc_sm_")
    try:
        tf.saved_model.save(module, d, signatures=named)
        graph, ins, outs, tables, rename = tf_loader.from_saved_model(
            d, None, None, tag=["serve"], signatures=["serving_default"], return_initialized_tables=True, return_tensors_to_rename=True)
        model, _ = convert._convert_common(  # pylint: disable=protected-access
            graph, name="m", continue_on_error=False, opset=opset, input_names=ins, output_names=outs,
            tensors_to_rename=rename, initialized_tables=tables, **kw)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return model


def run_case(case):
    s = case.spec
    sig = [tf.TensorSpec(sh, dt, name="x%d" % i) for i, (sh, dt) in enumerate(s["sig"])]
    try:
        # every case gets a fresh function object: tf.function caches by identity
        fn = s["make"]() if s["make"] else s["fn"]     # make(): builds the variables of the program
        resources = None
        if isinstance(fn, tuple):
            fn, resources = fn
        func = tf.function(lambda *a: fn(*a), input_signature=sig, autograph=False)
        want = []
        for f in s["feeds"]:
            vals = [tf_value(v, dt) for v, (_, dt) in zip(f, s["sig"])]
            r = (s["want_fn"] or func)(*vals)
            want.append([np.asarray(t) for t in tf.nest.flatten(r)])
    except Exception as e:  # pylint: disable=broad-except
        return Outcome("skip", "TensorFlow does not run it: %s: %s" % (type(e).__name__, str(e)[:300]), evals=0)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            if s["conv"]:
                model = s["conv"](func, sig, s["opset"], s["kw"], resources)
            else:
                model, _ = convert.from_function(func, input_signature=sig, opset=s["opset"], **s["kw"])
    except Exception as e:  # pylint: disable=broad-except
        return Outcome("refused", "%s: %s" % (type(e).__name__, str(e)[:500]))
    out_names = [o.name for o in model.graph.output]
    if want and len(out_names) != len(want[0]):
        return Outcome("interface", "%d outputs instead of %d" % (len(out_names), len(want[0])))
    have = [i.name for i in model.graph.input]
    bad = [n for n in have if not (n.startswith("x") and n[1:].isdigit() and int(n[1:]) < len(sig))]
    if bad:
        return Outcome("interface", "inputs %s are not arguments of the function" % bad)
    feeds = [{"x%d" % i: tfcase.feed_value(v) for i, v in enumerate(f)} for f in s["feeds"]]
    return tfcase.compare_model(model, feeds, want, out_names, [s["tol"]] * len(out_names), post=s["post"],
                                opset=s["opset"], extra_ops=s["extra_ops"])


def run_group(cases):
    return [run_case(c) for c in cases]


def define(module, pid, technique=None, rule=None, assumptions=()):
    tfcase.define(module, pid, technique, rule, 1, assumptions)
    module["run_group"] = run_group
    module["group_key"] = lambda c: 0
