"""C26: custom operators, handlers and rewriters are applied everywhere and their failures are never swallowed."""
import contextlib
import importlib
import io
import itertools
import os

import numpy as np
import onnx
from onnx import helper
import tensorflow as tf

from tf2onnx import constants, convert, handler
from mc import tfcase
from mc.core import Case, Outcome, sig_of
from mc.tfcase import mixed

ID = "C26"
LEVEL = "fault_enumeration"
TECHNIQUE = ("enumeration on the real converter of (place of an operator x way of extending x options), of every call of a handler or rewriter as the point "
             "of failure, and of all registrations of handler versions; TensorFlow with the operator replaced as reference")
RULE = ("places of an operator (top level, branches, loops, loop conditions, nested, TF1 control flow) x extension; every k-th call failing; every refused "
        "program of the other checks converted with continue_on_error; non-trivial and distinct = distinct emitted op sequences")
ASSUMPTIONS = ["an operator of a custom domain is evaluated as the standard operator its user has in mind"]
GROUP = 1

v1 = tf.compat.v1
MY = "my.domain"


def setup():
    tfcase.quiet()


# --------------------------------------------------------------------------------------------- programs with an operator in every place
def lgamma(x):
    return tf.raw_ops.Lgamma(x=x)


def places():
    P = {}
    f = tf.float32
    P["main"] = lambda op: lambda x: op(x) + 1.0
    P["output"] = lambda op: lambda x: op(x)
    P["twice"] = lambda op: lambda x: op(op(x) - 2.0) * 3.0
    P["fan"] = lambda op: lambda x: [op(x), op(x - 1.0), x * 2.0]
    P["shared"] = lambda op: lambda x: (lambda y: [y, y + 1.0, tf.reduce_sum(y, 0)])(op(x))
    P["cond"] = lambda op: lambda x: tf.cond(tf.reduce_sum(x) > 0, lambda: op(x), lambda: op(x * 2.0) * 3.0)
    P["branch"] = lambda op: lambda x: tf.cond(tf.reduce_sum(x) > 0, lambda: x + 1.0, lambda: op(x - 3.0))
    P["both"] = lambda op: lambda x: tf.cond(tf.reduce_sum(op(x)) > 0, lambda: op(x), lambda: x) - op(x)
    P["body"] = lambda op: lambda x: tf.while_loop(lambda i, a: i < 3, lambda i, a: (i + 1, op(a) - 1.0), [tf.constant(0), x])[1]
    P["test"] = lambda op: lambda x: tf.while_loop(lambda i, a: tf.logical_and(tf.reduce_max(op(a)) < 20.0, i < 4), lambda i, a: (i + 1, a * 2.0 - 1.0), [tf.constant(0), x])[1]
    P["nested"] = lambda op: lambda x: tf.while_loop(
        lambda i, a: i < 3, lambda i, a: (i + 1, tf.cond(tf.reduce_sum(a) > 0, lambda: op(a) - 5.0, lambda: op(a) + 2.0)), [tf.constant(0), x])[1]
    P["loopincond"] = lambda op: lambda x: tf.cond(
        tf.reduce_sum(x) > 0, lambda: tf.while_loop(lambda i, a: i < 2, lambda i, a: (i + 1, op(a) - 1.0), [tf.constant(0), x])[1], lambda: op(x))
    P["map"] = lambda op: lambda x: tf.map_fn(lambda t: op(t) * 2.0, x)
    return P


def replaced(kind):
    """what the extension makes of the operator"""
    return {"abs": tf.abs, "negabs": lambda t: -tf.abs(t), "double": lambda t: t * 2.0, "neg": lambda t: -t, "tanh": tf.tanh}[kind]


OPS = {"Lgamma": lgamma, "Tanh": tf.tanh, "Digamma": tf.math.digamma, "Softplus": tf.nn.softplus}
FEEDS = [mixed((2, 3), np.float32), -np.abs(mixed((2, 3), np.float32, 2)), np.abs(mixed((2, 3), np.float32, 3))]


def graph_of(fn, control_v2):
    """(graph, names of outputs)"""
    if control_v2:
        v1.enable_control_flow_v2()
    else:
        v1.disable_control_flow_v2()
    try:
        g = tf.Graph()
        with g.as_default():
            x = v1.placeholder(tf.float32, [2, 3], name="x")
            r = fn(x)
            r = r if isinstance(r, (list, tuple)) else [r]
            outs = [tf.identity(t, name="y%d" % k).name for k, t in enumerate(r)]
        return g, outs
    finally:
        v1.enable_control_flow_v2()


def reference(place, kind, control_v2=True):
    g, outs = graph_of(places()[place](replaced(kind)), control_v2)
    with v1.Session(graph=g) as s:
        return [s.run(outs, {"x:0": f}) for f in FEEDS]


def converted(place, op, control_v2, entry, opset=18, **kw):
    """the model by the entry point"""
    fn = places()[place](OPS[op])
    with contextlib.redirect_stdout(io.StringIO()):
        if entry == "function":
            f = tf.function(lambda x: fn(x), input_signature=[tf.TensorSpec([2, 3], tf.float32, name="x")], autograph=False)
            return convert.from_function(f, input_signature=[tf.TensorSpec([2, 3], tf.float32, name="x")], opset=opset, **kw)[0]
        g, outs = graph_of(fn, control_v2)
        if entry == "graphdef":
            return convert.from_graph_def(g.as_graph_def(), name="m", input_names=["x:0"], output_names=outs, opset=opset, **kw)[0]
        assert entry in ("strict", "lenient")
        return convert._convert_common(freeze(g, outs), name="m", continue_on_error=entry == "lenient",  # pylint: disable=protected-access
                                       input_names=["x:0"], output_names=outs, opset=opset, **kw)[0]


def freeze(g, outs):
    from tf2onnx import tf_loader
    with v1.Session(graph=g):
        return tf_loader.tf_optimize(["x:0"], outs, g.as_graph_def())


def judge(model, want, domain_as=None):
    """run the model; operators of a custom domain stand for a standard one"""
    if domain_as:
        def walk(g):
            for n in g.node:
                if n.domain in domain_as:
                    n.domain = ""
                    n.op_type = domain_as[MY]
                    del n.attribute[:]
                for a in n.attribute:
                    if a.HasField("g"):
                        walk(a.g)
        walk(model.graph)
    name = model.graph.input[0].name
    outs = [o.name for o in model.graph.output]
    return tfcase.compare_model(model, [{name: f} for f in FEEDS], want, outs, [(1e-4, 1e-5)] * len(outs))


def walk_nodes(g):
    for n in g.node:
        yield n
        for a in n.attribute:
            if a.HasField("g"):
                yield from walk_nodes(a.g)


# --------------------------------------------------------------------------------------------- extensions
class Boom(Exception):
    pass


class Log:
    def __init__(self, fail_at=None, edit=False):
        self.calls = []
        self.fail_at = fail_at

    def __call__(self, *a):
        self.calls.append(a)
        if self.fail_at == len(self.calls):
            raise Boom("call %d" % self.fail_at)


def handlers(how, op, log):
    """-> (custom_op_handlers, what it makes of the operator)"""
    def settype(ctx, node, name, args):
        log(node.type, args, name == node.name)
        node.type = "Abs"
        node.domain = ""
        return node

    def noop(ctx, node, name, args):
        log(node.type, args, name == node.name)

    def nodes(ctx, node, name, args):
        log(node.type, args, name == node.name)
        ctx.remove_node(node.name)
        dt, sh = ctx.get_dtype(node.output[0]), ctx.get_shape(node.output[0])
        a = ctx.make_node("Abs", [node.input[0]], dtypes=[dt], shapes=[sh])
        ctx.make_node("Neg", [a.output[0]], outputs=node.output, name=node.name, dtypes=[dt], shapes=[sh])

    def const(ctx, node, name, args):
        log(node.type, args, name == node.name)
        two = ctx.make_const(constants.TF2ONNX_PACKAGE_NAME + "_two_" + name.replace("/", "_"), np.array(2.0, np.float32))
        node.type = "Mul"
        node.input.append(two.output[0]) if isinstance(node.input, list) else ctx.replace_inputs(node, [node.input[0], two.output[0]])

    return {"settype": ({op: (settype, [])}, "abs", (op, [])), "arg": ({op: (noop, ["Abs"])}, "abs", ("Abs", [])),
            "args": ({op: (noop, ["Neg", 7, "z"])}, "neg", ("Neg", [7, "z"])), "nodes": ({op: (nodes, [])}, "negabs", (op, [])),
            "const": ({op: (const, [])}, "double", (op, []))}[how]


def rewriter(log, old, new):
    def fn(g, ops):
        log(g.graph_name, len(ops))
        for n in list(g.get_nodes()):
            if n.type == old:
                n.type = new
        return g.get_nodes()
    fn.__name__ = "%s_to_%s" % (old, new)
    return fn


def run_handler(s):
    log = Log()
    hs, kind, call = handlers(s["how"], s["op"], log)
    before = dict(hs)
    m = converted(s["place"], s["op"], s["v2"], s["entry"], opset=s.get("opset", 18), custom_op_handlers=hs)
    if hs != before:
        return Outcome("argument", "custom_op_handlers changed")
    bad = [c for c in log.calls if c[0] != call[0] or list(c[1]) != call[1] or not c[2]]
    if bad or not log.calls:
        return Outcome("protocol", "the handler was called with (type, args, name is the node's) = %s, expected %s" % (bad or "never", call))
    return judge(m, reference(s["place"], kind, s["v2"]))


def run_domain(s):
    m = converted(s["place"], s["op"], s["v2"], s["entry"], opset=s.get("opset", 18), custom_ops={s["op"]: MY}, extra_opset=[helper.make_opsetid(MY, s.get("version", 1))])
    mine = [n for n in walk_nodes(m.graph) if n.domain == MY]
    if not mine:
        return Outcome("mismatch", "no operator of the custom domain in the model")
    if any(n.op_type != s["op"] or len(n.input) != 1 or len(n.output) != 1 for n in mine):
        return Outcome("mismatch", "operators of the custom domain: %s" % [(n.op_type, len(n.input), len(n.output)) for n in mine])
    if [o.version for o in m.opset_import if o.domain == MY] != [s.get("version", 1)]:
        return Outcome("mismatch", "opset imports %s" % [(o.domain, o.version) for o in m.opset_import])
    return judge(m, reference(s["place"], "abs", s["v2"]), {MY: "Abs"})


def run_rewriter(s):
    log = Log()
    chain = [rewriter(log, s["op"], "MyOp"), rewriter(log, "MyOp", "Abs")]

    def keep(ctx, node, name, args):
        return node
    m = converted(s["place"], s["op"], s["v2"], s["entry"], custom_rewriter=chain, custom_op_handlers={"Abs": (keep, [])} if s.get("also") else None)
    if len(chain) != 2:
        return Outcome("argument", "custom_rewriter changed")
    return judge(m, reference(s["place"], "abs", s["v2"]))


def run_fault(s):
    """the k-th call fails, for every k"""
    k = 0
    evals = 0
    while True:
        k += 1
        log = Log(fail_at=k)
        if s["what"] == "handler":
            hs, kind, _ = handlers(s["how"], s["op"], log)
            kw = dict(custom_op_handlers=hs)
        else:
            kw = dict(custom_rewriter=[rewriter(log, s["op"], "MyOp"), rewriter(log, "MyOp", "Abs")])
            kind = "abs"
        try:
            m = converted(s["place"], s["op"], s["v2"], s["entry"], **kw)
            err = None
        except Boom as e:
            err = e
        evals += 1
        if len(log.calls) < k:
            if err is not None:
                return Outcome("swallowed", "Boom without a failing call")
            return Outcome("ok", sig=sig_of(s, k), evals=evals)
        where = "%s: call %d of the %s fails (%s)" % (s["place"], k, s["what"], log.calls[k - 1][:2])
        if s["entry"] == "strict":
            if err is None:
                return Outcome("swallowed", where + ", the conversion succeeds")
            continue
        if err is not None:
            return Outcome("not contained", where + ", continue_on_error is set and the conversion fails")
        if s["op"] == "Tanh":
            continue            # a node whose handler fails keeps the type, which is a standard operator
        r = judge(m, reference(s["place"], kind, s["v2"]))
        if r.kind not in ("ok", "foreign-op", "invalid", "unrunnable"):
            return Outcome("silent", where + ", the model: %s %s" % (r.kind, r.detail))
        if r.kind == "ok" and s["what"] == "handler":
            return Outcome("silent", where + ", and the operator is converted nevertheless")


def run_versions(s):
    """the handler of the highest version up to the opset is used"""
    types = {8: "Abs", 11: "Neg", 13: "Exp", 15: "Sigmoid"}
    saved = {d: [dict(m) for m in l] for d, l in handler.tf_op._OPSETS.items()}  # pylint: disable=protected-access
    log = []
    try:
        def make(v):
            def fn(cls, ctx, node, **kwargs):
                log.append((v, kwargs.get("extra")))
                node.type = types[v]
            return classmethod(fn)
        cls = type("Custom", (), {"version_%d" % v: make(v) for v in s["versions"]})
        kw = {"extra": 5} if s["extra"] else {}
        handler.tf_op([s["op"], "Another"] if s["extra"] else s["op"], domain=s["domain"], **kw)(cls)
        evals = 0
        for opset in s["opsets"]:
            del log[:]
            level = opset
            ekw = {}
            if s["domain"]:
                level = s["level"]
                if level:
                    ekw = dict(extra_opset=[helper.make_opsetid(s["domain"], level)])
            fit = [v for v in s["versions"] if v <= level]
            want = types[max(fit)] if fit else None
            m = converted("main", s["op"], True, "graphdef", opset=opset, **ekw)
            have = [n.op_type for n in m.graph.node]
            if want is None:
                if log or (s["op"] != "Tanh" and "Lgamma" not in have) or (s["op"] == "Tanh" and "Tanh" not in have):
                    return Outcome("version", "versions %s of domain %r at opset %s/%s: %s called, %s in the model" % (s["versions"], s["domain"], opset, s["level"], log, have))
            elif want not in have or [v for v, _ in log] != [max(fit)] or log[0][1] != (5 if s["extra"] else None):
                return Outcome("version", "versions %s of domain %r at opset %s/%s: called %s, nodes %s, expected %s" % (s["versions"], s["domain"], opset, s["level"], log, have, want))
            evals += 1
        return Outcome("ok", sig=sig_of(s["versions"], s["domain"], s["op"], s["level"], s["extra"]), evals=evals)
    finally:
        ops = handler.tf_op._OPSETS  # pylint: disable=protected-access
        ops.clear()
        ops.update(saved)


def run_lenient(s):
    """a program that is refused, converted with continue_on_error"""
    c = source(s["mod"])[s["id"]]
    sp = dict(c.spec)
    sp["convert"] = lambda g, i, o, opset=18, **kw: tfcase.convert(g, i, o, opset=opset, continue_on_error=True, **kw)
    r = tfcase.run_joint([Case(c.id, sp)])
    if r.kind in ("ok", "refused", "foreign-op", "invalid", "unrunnable", "skip"):
        return Outcome("ok", sig=sig_of(s["mod"], s["id"].split("/")[0], r.kind), evals=1)
    return Outcome("silent", "refused without continue_on_error, with it the model loads and is wrong: %s %s" % (r.kind, r.detail))


SOURCE = {}


def source(mod):
    if mod not in SOURCE:
        m = importlib.import_module("mc.checks." + mod)
        SOURCE[mod] = {c.id: c for c in m.cases("quick")}
    return SOURCE[mod]


RUN = {"handler": run_handler, "domain": run_domain, "rewriter": run_rewriter, "fault": run_fault, "versions": run_versions, "lenient": run_lenient}


def run_case(case):
    s = case.spec
    try:
        return RUN[s["run"]](s)
    except Exception as e:  # pylint: disable=broad-except
        return Outcome("refused", "%s: %s" % (type(e).__name__, str(e)[:500]))


def run_group(cases):
    return [run_case(c) for c in cases]


def cases(tier):
    out = []
    big = tier == "thorough"
    P = list(places())
    entries = [("function", True), ("graphdef", True), ("graphdef", False), ("strict", True), ("strict", False)]
    for place, (entry, v2) in itertools.product(P, entries):
        if place == "map" and v2 and entry != "function":
            continue                        # lists of tensors outside of functions are not supported
        tag = "%s/%s%s" % (place, entry, "" if v2 else "1")
        for how in ("settype", "arg", "args", "nodes", "const"):
            for op in ("Lgamma", "Tanh"):
                if not big and (op == "Tanh") != (how in ("args", "nodes")) and entry != "graphdef":
                    continue
                if not big and entry == "strict" and how != "settype":
                    continue
                out.append(Case("handler/%s/%s/%s" % (how, op, tag), dict(run="handler", how=how, op=op, place=place, entry=entry, v2=v2)))
        for op in ("Lgamma", "Softplus"):
            if big or op == "Lgamma" or place in ("main", "body", "nested", "cond"):
                out.append(Case("domain/%s/%s" % (op, tag), dict(run="domain", op=op, place=place, entry=entry, v2=v2, version=3)))
        out.append(Case("rewriter/%s" % tag, dict(run="rewriter", op="Lgamma", place=place, entry=entry, v2=v2)))
    for place, v2, entry in itertools.product(P, (True, False), ("strict", "lenient")):
        if place == "map" and v2:
            continue
        tag = "%s/%s%s" % (place, entry, "" if v2 else "1")
        for op in ("Lgamma", "Tanh"):
            for how in ("settype", "nodes"):
                if big or (op == "Lgamma") == (how == "settype"):
                    out.append(Case("fault/handler/%s/%s/%s" % (how, op, tag), dict(run="fault", what="handler", how=how, op=op, place=place, entry=entry, v2=v2)))
        out.append(Case("fault/rewriter/%s" % tag, dict(run="fault", what="rewriter", op="Lgamma", place=place, entry=entry, v2=v2)))
    vs = (8, 11, 13, 15)
    for n in range(1, 5):
        for sub in itertools.combinations(vs, n):
            for op in ("Lgamma", "Tanh"):
                for extra in (False, True):
                    if extra and not big and n != 2:
                        continue
                    ops = tuple(range(8, 19)) if big else (8, 10, 11, 12, 13, 14, 15, 18)
                    out.append(Case("version/%s/%s/%d" % (op, "_".join(map(str, sub)), extra), dict(run="versions", versions=sub, op=op, domain="", level=None, opsets=ops, extra=extra)))
                    if n < 3:
                        for level in (None, 7, 8, 12, 13, 20):
                            out.append(Case("version/%s/%s/%d/my%s" % (op, "_".join(map(str, sub)), extra, level),
                                            dict(run="versions", versions=sub, op=op, domain=MY, level=level or 0, opsets=(18,) if not big else (9, 13, 18), extra=extra)))
    base = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "baseline")
    for mod in ("c01", "c02", "c03", "c04", "c05", "c06", "c07", "c08", "c10", "c12"):
        path = os.path.join(base, mod.upper() + ".txt")
        if not os.path.exists(path):
            continue
        with open(path) as f:
            ids = [l.split()[1] for l in f if l.startswith("refused ")]
        have = source(mod)
        seen = {}
        for i in ids:
            c = have.get(i)
            if c is None or c.spec.get("convert") or "build" not in c.spec:
                continue
            fam = "/".join(i.split("/")[:2])
            seen[fam] = seen.get(fam, 0) + 1
            if big or seen[fam] <= 1:
                out.append(Case("lenient/%s:%s" % (mod, i), dict(run="lenient", mod=mod, id=i)))
    return out
