"""C16: every type and shape recorded for a tensor agrees with the values it takes, before and after the optimizers."""
import importlib

import numpy as np
import onnx
import tensorflow as tf
from onnx import helper

from tf2onnx import optimizer, tfonnx
from mc import tfcase
from mc.core import Case, Outcome, sig_of
from mc.tfcase import build_joint, feed_value, v1

tfcase.define(globals(), "C16", rule="the operator programs of C01-C07, C10 and C12 (quick: an even selection per operator family; thorough: all); every tensor of the converted graph, "
              "before and after the optimizers, is made an output and its value compared with the recorded type and shape", group=10)
SOURCES = ("c01", "c02", "c03", "c04", "c05", "c06", "c07", "c10", "c12")
PER_FAMILY = {"quick": 7, "thorough": 10 ** 9}


def observe(g, stage, feeds, in_names):
    """-> (list of contradictions, tensors compared)"""
    rec = {}
    consts = set()
    for n in g.get_nodes():
        for o in n.output:
            if not o:
                continue
            if n.is_const():
                consts.add(o)
            elif not n.is_graph_input():
                rec[o] = (g.get_dtype(o), g.get_shape(o), n.type)
    model = g.make_model("m")
    if tfcase.foreign_nodes(model):
        return None, 0
    try:
        tfcase.ort_session(model)
    except Exception:  # pylint: disable=broad-except
        return None, 0      # does not load as it is: what the operator checks judge
    alive = {o for n in model.graph.node for o in n.output}
    have = {o.name for o in model.graph.output}
    # constants first: their value is their own witness
    bad = []
    for t in model.graph.initializer:
        s, d = g.get_shape(t.name), g.get_dtype(t.name)
        if s is not None and list(s) != list(t.dims):
            bad.append("%s: constant %s is recorded as %s, has %s" % (stage, t.name, s, list(t.dims)))
        if d is not None and d != t.data_type:
            bad.append("%s: constant %s is recorded as type %s, has %s" % (stage, t.name, d, t.data_type))
    for o, (d, s, typ) in rec.items():
        if o in alive and o not in have and isinstance(d, int) and d:
            model.graph.output.append(helper.make_tensor_value_info(o, d, None))
    try:
        sess = tfcase.ort_session(model)
    except Exception as e:  # pylint: disable=broad-except
        t = str(e)[:400]
        if any(k in t for k in tfcase.NO_KERNEL):
            return None, 0
        return ["%s: with every tensor as an output the model does not load: %s" % (stage, t)], 0
    names = [o.name for o in sess.get_outputs()]
    inputs = {i.name for i in sess.get_inputs()}
    n = 0
    for fd in feeds:
        try:
            got = sess.run(names, {k: v for k, v in fd.items() if k in inputs})
        except Exception as e:  # pylint: disable=broad-except
            return None, 0      # the operator checks judge this
        for name, v in zip(names, got):
            if name not in rec or isinstance(v, list):
                continue
            d, s, typ = rec[name]
            v = np.asarray(v)
            n += 1
            if s is not None and (len(s) != v.ndim or any(a not in (-1, None) and a != b for a, b in zip(s, v.shape))):
                bad.append("%s: %s (%s) is recorded as %s, is %s" % (stage, name, typ, s, list(v.shape)))
    return bad, n


def run_joint(cases):
    try:
        b = build_joint(cases)
    except Exception as e:  # pylint: disable=broad-except
        return Outcome("skip", str(e)[:200], evals=0)
    feeds = []
    for i in range(max(len(c.spec["feeds"]) for c in cases)):
        fd = {}
        for c, (phs, _) in zip(cases, b.parts):
            vals = c.spec["feeds"][i % len(c.spec["feeds"])] if c.spec["feeds"] else []
            for p, v in zip(phs, vals):
                fd[p.name] = feed_value(v)
        feeds.append(fd)
    ins = [p.name for phs, _ in b.parts for p in phs]
    outs = [o.name for _, os in b.parts for o in os]
    try:
        with b.graph.as_default():
            g = tfonnx.process_tf_graph(b.graph, opset=cases[0].spec["opset"], input_names=ins, output_names=outs, **cases[0].spec["kw"])
    except Exception as e:  # pylint: disable=broad-except
        return Outcome("skip", "not converted: %s" % str(e)[:200], evals=0)
    ops = sig_of(tuple(n.type for n in g.get_nodes()))
    bad, n1 = observe(g, "before optimizing", feeds, ins)
    g = optimizer.optimize_graph(g)
    bad2, n2 = observe(g, "after optimizing", feeds, ins)
    bad = (bad or []) + (bad2 or [])
    if bad:
        return Outcome("recorded", "; ".join(sorted(set(bad)))[:900])
    return Outcome("ok", sig=ops, evals=n1 + n2, extra={"tensors": n1 + n2})


def run_group(cases):
    o = run_joint(cases)
    if len(cases) == 1:
        return [o]
    if o.kind == "ok":
        n = len(cases)
        return [Outcome("ok", sig=o.sig, evals=o.evals // n + (1 if k < o.evals % n else 0), extra=o.extra if k == 0 else None) for k in range(n)]
    return [Outcome(o.kind, o.detail, evals=0) for _ in cases]


ALONE = ("c04:setdiag", "c04:diag3", "c12:mel")      # large graphs: cheaper one by one


def group_key(c):
    return c.id if c.id.startswith(ALONE) else tfcase.group_key(c)


def cases(tier):
    out = []
    for src in SOURCES:
        fam = {}
        for c in importlib.import_module("mc.checks." + src).cases(tier):
            if isinstance(c.spec, dict) and "build" in c.spec and c.spec.get("opset") == tfcase.DEFAULT_OPSET and not c.spec["convert"]:
                parts = c.id.split("/")
                fam.setdefault(parts[0] if len(parts) > 2 else parts[0].split("_")[0], []).append(c)
        for f, cs in fam.items():
            k = PER_FAMILY[tier] if not f.startswith("setdiag") else PER_FAMILY[tier] // 2
            sel = cs if len(cs) <= k else [cs[(len(cs) - 1) * i // (k - 1)] for i in range(k)]
            out.extend(Case("%s:%s" % (src, c.id), c.spec) for c in sel)
    return out
