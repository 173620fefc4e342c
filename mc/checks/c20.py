"""C20: an optimizer that fails, at any point, costs nothing but its own optimization."""
import collections
import copy
import functools
import os

import numpy as np
import onnx

from tf2onnx import optimizer as tfopt
from tf2onnx.graph import Graph, GraphUtil, Node
from mc import oxcase, tfcase
from mc.core import Case, Outcome, sig_of

ID = "C20"
LEVEL = "fault_enumeration"
TECHNIQUE = ("fault enumeration on the real optimizer driver: for every base graph every single fault point of every optimizer (before and "
             "after each graph edit it makes, in any iteration) is injected in a run of its own; oracle: the unoptimized graph in onnxruntime, and "
             "the pipeline without the failing optimizer")
RULE = ("every base graph x every optimizer that edits it x every edit it makes x {the edit raises before it acts, after it acted}; every "
        "base graph x every position of the pipeline x every way a whole optimizer can fail")
ASSUMPTIONS = ["a fault is an exception at a graph edit made through the Graph and Node methods",
               "onnxruntime CPU kernels with graph optimizations disabled are the reference semantics of ONNX"]
GROUP = 1
setup = tfcase.quiet

GRAPH_EDITS = ("make_node", "make_const", "append_node", "remove_node", "reset_nodes", "set_dtype", "copy_dtype", "set_shape", "copy_shape",
               "topological_sort", "update_proto", "delete_unused_nodes", "remove_input", "insert_new_node_on_input", "insert_node_on_output",
               "insert_new_node_on_output", "replace_all_inputs", "replace_input", "replace_inputs", "safe_remove_nodes", "update_node_shape_dtype")
NODE_EDITS = ("set_attr", "set_attr_onnx", "set_tensor_value", "set_body_graph_as_attr", "update_proto")


class Injected(Exception):
    pass


class Injector:
    """counts the edits an optimizer makes (outermost edits only); raises at the chosen one"""

    def __init__(self):
        self.owner = None            # name of the optimizer that runs now
        self.depth = 0
        self.counts = collections.Counter()
        self.target = None           # (optimizer, index, 'before' | 'after')
        self.fired = 0
        self.what = {}

    def wrap(self, fn, name):
        @functools.wraps(fn)
        def edit(*args, **kw):
            if self.owner is None or self.depth:
                return fn(*args, **kw)
            k = self.counts[self.owner]
            self.counts[self.owner] += 1
            self.what[(self.owner, k)] = name
            hit = self.target is not None and self.target[:2] == (self.owner, k)
            if hit and self.target[2] == "before":
                self.fired += 1
                raise Injected("before %s" % name)
            self.depth += 1
            try:
                r = fn(*args, **kw)
            finally:
                self.depth -= 1
            if hit:
                self.fired += 1
                raise Injected("after %s" % name)
            return r
        return edit

    def install(self):
        self.saved = []
        for cls, names in ((Graph, GRAPH_EDITS), (Node, NODE_EDITS)):
            for n in names:
                fn = cls.__dict__.get(n)
                if callable(fn):
                    self.saved.append((cls, n, fn))
                    setattr(cls, n, self.wrap(fn, n))

    def uninstall(self):
        for cls, n, fn in self.saved:
            setattr(cls, n, fn)

    def optimizers(self):
        """the product's optimizers, each announcing itself while it runs"""
        out = collections.OrderedDict()
        for name, factory in tfopt._get_optimizers().items():
            out[name] = functools.partial(self.build, name, factory)
        return out

    def build(self, name, factory):
        opt = factory()
        run = opt.optimize

        def optimize(*args, **kw):
            self.owner = name
            try:
                return run(*args, **kw)
            finally:
                self.owner = None
        opt.optimize = optimize
        return opt


def load(model):
    m = onnx.ModelProto()
    m.CopyFrom(model)
    return GraphUtil.create_graph_from_onnx_model(m)


def save(graph, model):
    return graph.make_model("", graph_name=model.graph.name, **GraphUtil.get_onnx_model_properties(model))


def structure(model):
    """the model up to the names the converter generates"""
    def graph(g, env):
        names = dict(env)
        for i in g.input:
            names[i.name] = "in:" + i.name
        for i in g.initializer:
            names[i.name] = "init:%s%s%s" % (i.data_type, list(i.dims), onnx.numpy_helper.to_array(i).tobytes() if i.data_type != 8 else list(i.string_data))
        rows = []
        todo = list(g.node)
        for n in todo:
            attrs = []
            for a in sorted(n.attribute, key=lambda a: a.name):
                if a.type == onnx.AttributeProto.GRAPH:
                    attrs.append((a.name, graph(a.g, names)))
                elif a.type == onnx.AttributeProto.TENSOR:
                    attrs.append((a.name, a.t.data_type, tuple(a.t.dims), onnx.numpy_helper.to_array(a.t).tobytes() if a.t.data_type != 8 else tuple(a.t.string_data)))
                else:
                    attrs.append((a.name, a.SerializeToString(deterministic=True)))
            row = sig_of(n.op_type, n.domain, tuple(names.get(i, "?" + i) for i in n.input), tuple(attrs))
            for k, o in enumerate(n.output):
                if o:
                    names[o] = "%s.%d" % (row, k)
            rows.append(row)
        return (tuple(sorted(rows)), tuple(names.get(o.name, o.name) for o in g.output), tuple(i.name for i in g.input))
    return graph(model.graph, {})


class Bad(Exception):
    def __init__(self, kind, detail):
        Exception.__init__(self, detail)
        self.kind = kind


class Ref:
    def __init__(self, spec):
        model = spec["build"]()
        self.model = model.model() if isinstance(model, oxcase.M) else model
        self.sess = tfcase.ort_session(self.model, spec["extra_ops"])
        self.names = [o.name for o in self.model.graph.output]
        self.ins = [i.name for i in self.model.graph.input]
        self.extra = spec["extra_ops"]
        self.tol = spec["tol"]
        self.feeds, self.want = [], []
        for f in spec["feeds"]:
            try:
                self.want.append(self.sess.run(self.names, f))
                self.feeds.append(f)
            except Exception:  # pylint: disable=broad-except
                continue
        self.seen = {}

    def check(self, model, label):
        key = model.SerializeToString(deterministic=True)
        if key in self.seen:
            return
        self.seen[key] = 1
        if [o.name for o in model.graph.output] != self.names or [i.name for i in model.graph.input if i.name not in self.ins]:
            raise Bad("interface", "%s: the interface changed" % label)
        try:
            s = tfcase.ort_session(model, self.extra)
        except Exception as e:  # pylint: disable=broad-except
            raise Bad("invalid", "%s: %s" % (label, str(e)[:400]))
        ins = [i.name for i in model.graph.input]
        for f, w in zip(self.feeds, self.want):
            try:
                got = s.run(self.names, {k: v for k, v in f.items() if k in ins})
            except Exception as e:  # pylint: disable=broad-except
                raise Bad("runtime", "%s: %s" % (label, str(e)[:400]))
            for n, a, b in zip(self.names, w, got):
                d = oxcase.values_differ(a, b, self.tol)
                if d:
                    raise Bad("mismatch", "%s: %s: %s" % (label, n, d))


def faults(ref):
    """every fault point of every optimizer"""
    evals, sigs = 0, []
    inj = Injector()
    inj.install()
    try:
        g = GraphUtil.optimize_graph(load(ref.model), True, optimizers=inj.optimizers())
        ref.check(save(g, ref.model), "no fault")
        points = dict(inj.counts)
        what = dict(inj.what)
        for name, n in points.items():
            for k in range(n):
                for mode in ("before", "after"):
                    label = "%s fails %s its edit %d (%s)" % (name, mode, k, what[(name, k)])
                    inj.counts.clear()
                    inj.target, inj.fired, inj.owner, inj.depth = (name, k, mode), 0, None, 0
                    try:
                        g = GraphUtil.optimize_graph(load(ref.model), True, optimizers=inj.optimizers())
                        inj.target = None
                        m = save(g, ref.model)
                    except Injected as e:
                        raise Bad("escaped", "%s: the error reached the caller: %s" % (label, e))
                    except Exception as e:  # pylint: disable=broad-except
                        raise Bad("raised", "%s: %s: %s" % (label, type(e).__name__, str(e)[:300]))
                    if not inj.fired:
                        continue
                    inj.uninstall()
                    try:
                        ref.check(m, label)
                    finally:
                        inj.install()
                    evals += 1
                    sigs.append((name, what[(name, k)], mode))
        # an error is an error when the caller asks for it
        for name, n in points.items():
            for k in sorted({0, n // 2, n - 1}):
                inj.counts.clear()
                inj.target, inj.fired, inj.owner, inj.depth = (name, k, "before"), 0, None, 0
                try:
                    GraphUtil.optimize_graph(load(ref.model), False, optimizers=inj.optimizers())
                except Injected:
                    evals += 1
                    continue
                except Exception:  # pylint: disable=broad-except
                    evals += 1          # an error all the same
                    continue
                if inj.fired:
                    raise Bad("swallowed", "%s fails at edit %d (%s), catch_errors=False: no error reaches the caller" % (name, k, what.get((name, k))))
    finally:
        inj.uninstall()
    return evals, sigs


def wreck(graph):
    """leaves nothing of a graph that makes sense"""
    for n in list(graph.get_nodes()):
        try:
            if n.is_const():
                n.set_tensor_value(np.zeros_like(n.get_tensor_value(as_list=False)))
            elif not n.is_graph_input():
                n.type = "Wrecked"
                for a in list(n.attr):
                    del n.attr[a]
                for g in (n.get_body_graphs() or {}).values():
                    wreck(g)
        except Exception:  # pylint: disable=broad-except
            pass
    try:
        for o in list(graph.outputs):
            graph.set_shape(o, [77])
        graph.outputs.clear()
        graph.reset_nodes([])
    except Exception:  # pylint: disable=broad-except
        pass


class Stub:
    graph_been_opt = False

    def __init__(self, how):
        self.how = how
        if how == "constructor":
            raise Injected(how)

    def optimize(self, graph, iteration):
        if self.how.startswith("wreck"):
            wreck(graph)
        if self.how.endswith("none"):
            return None
        raise {"key": KeyError("x"), "assert": AssertionError(), "value": ValueError("v"), "mem": MemoryError(),
               "stop": StopIteration(), "recursion": RecursionError()}.get(self.how, Injected(self.how))


HOWS = ("constructor", "raise", "wreck", "none", "key", "assert", "value", "mem", "stop", "recursion")


def stubs(ref):
    """a whole optimizer that fails, at every position of the pipeline: the result is that of the others"""
    evals, sigs = 0, []
    opts = tfopt._get_optimizers()
    names = list(opts)
    full = structure(save(GraphUtil.optimize_graph(load(ref.model), True), ref.model))
    for pos in range(len(names) + 1):
        for how in HOWS:
            seq = list(opts.items())
            seq.insert(pos, ("stub", functools.partial(Stub, how)))
            label = "an optimizer that fails (%s) at position %d" % (how, pos)
            try:
                m = save(GraphUtil.optimize_graph(load(ref.model), True, optimizers=collections.OrderedDict(seq)), ref.model)
            except Exception as e:  # pylint: disable=broad-except
                raise Bad("escaped", "%s: %s: %s" % (label, type(e).__name__, e))
            if structure(m) != full:
                ref.check(m, label)
                raise Bad("others", "%s: the result is not that of the other optimizers: %s" % (label, collections.Counter(n.op_type for n in m.graph.node)))
            evals += 1
            if how.endswith("none"):
                continue
            try:
                GraphUtil.optimize_graph(load(ref.model), False, optimizers=collections.OrderedDict(seq))
            except Exception as e:  # pylint: disable=broad-except
                evals += 1
            else:
                raise Bad("swallowed", "%s, catch_errors=False: no error reaches the caller" % label)
        # one of the product's own optimizers gone
        if pos < len(names):
            gone = names[pos]
            seq = [(n, f) for n, f in opts.items() if n != gone]
            want = structure(save(GraphUtil.optimize_graph(load(ref.model), True, optimizers=collections.OrderedDict(seq)), ref.model))
            for how in ("raise", "wreck"):
                seq = [(n, f if n != gone else functools.partial(Stub, how)) for n, f in opts.items()]
                m = save(GraphUtil.optimize_graph(load(ref.model), True, optimizers=collections.OrderedDict(seq)), ref.model)
                if structure(m) != want:
                    ref.check(m, gone)
                    raise Bad("others", "%s replaced by a failing one (%s): not the result of the other optimizers" % (gone, how))
                evals += 1
        # optimize_model_proto hands the original model back or an equivalent one
        for how in ("raise", "wreck", "wreck-none"):
            seq = list(opts.items())
            seq.insert(pos, ("stub", functools.partial(Stub, how)))
            m = onnx.ModelProto()
            m.CopyFrom(ref.model)
            r = GraphUtil.optimize_model_proto(m, catch_errors=True, optimizers=collections.OrderedDict(seq))
            ref.check(r, "optimize_model_proto with a failing optimizer (%s) at %d" % (how, pos))
            evals += 1
        sigs.append(pos)
    # every optimizer fails
    for how in HOWS:
        m = save(GraphUtil.optimize_graph(load(ref.model), True, optimizers=collections.OrderedDict((n, functools.partial(Stub, how)) for n in names)), ref.model)
        ref.check(m, "all optimizers fail (%s)" % how)
        evals += 1
    return evals, sigs + [sig_of(full)]


def via_api(case):
    """the same through the conversion entry point: which errors are contained is decided by large_model and TF2ONNX_CATCH_ERRORS"""
    import tensorflow as tf
    from tf2onnx import convert
    s = case.spec
    env, large, how = s["env"], s["large"], s["how"]

    def fn(x):
        return tf.transpose(tf.nn.relu(tf.transpose(x, [0, 3, 1, 2])) + 1.0, [0, 2, 3, 1]) @ tf.constant(np.ones((3, 2), np.float32))
    f = tf.function(fn, input_signature=[tf.TensorSpec([1, 2, 2, 3], tf.float32, name="x")]).get_concrete_function()
    from tf2onnx import tf_loader
    gd = tf_loader.from_function(f, ["x:0"], [f.outputs[0].name])
    opts = list(tfopt._get_optimizers().items())
    opts.insert(3, ("stub", functools.partial(Stub, how)))
    old = os.environ.pop("TF2ONNX_CATCH_ERRORS", None)
    if env is not None:
        os.environ["TF2ONNX_CATCH_ERRORS"] = env
    try:
        r = convert._convert_common(gd, name="m", large_model=large, input_names=["x:0"], output_names=["Identity:0"], opset=18,
                                    optimizers=collections.OrderedDict(opts))
        got = "model"
    except Exception as e:  # pylint: disable=broad-except
        got = "error"
    finally:
        os.environ.pop("TF2ONNX_CATCH_ERRORS", None)
        if old is not None:
            os.environ["TF2ONNX_CATCH_ERRORS"] = old
    want = "model" if (not large if env is None else env.upper() == "TRUE") else "error"
    if got != want:
        return Outcome("containment", "TF2ONNX_CATCH_ERRORS=%s, large_model=%s, optimizer fails (%s): %s, expected %s" % (env, large, how, got, want))
    return Outcome("ok", sig=sig_of(env, large, how))


def run_case(case):
    s = case.spec
    if s.get("api"):
        return via_api(case)
    try:
        ref = Ref(s)
    except Exception as e:  # pylint: disable=broad-except
        return Outcome("skip", "not a valid model: %s" % str(e)[:300], evals=0)
    if not ref.feeds:
        return Outcome("skip", "the original model does not run", evals=0)
    try:
        evals, sigs = (faults if s["what"] == "fault" else stubs)(ref)
    except Bad as e:
        return Outcome(e.kind, str(e))
    return Outcome("ok", sig=sig_of(sorted(set(map(str, sigs)))), evals=evals, extra={"fault points": evals})


def run_group(cases):
    return [run_case(c) for c in cases]


def cases(tier):
    from mc.checks import c10, c17, c18
    out = []
    for mod in (c17, c18, c10):
        groups = collections.OrderedDict()
        for c in mod.cases("quick"):
            if "pipes" not in c.spec:
                continue
            groups.setdefault(c.id.split("/")[0], []).append(c)
        n = 1 if tier == "quick" else 16
        for fam, g in enumerate(groups.values()):
            step = max(1, len(g) // n)
            for c in g[step // 2::step][:n]:
                pid = "%s:%s" % (mod.__name__.split(".")[-1], c.id)
                s = dict(build=c.spec["build"], feeds=c.spec["feeds"], extra_ops=c.spec["extra_ops"], tol=c.spec["tol"])
                out.append(Case("fault/" + pid, dict(s, what="fault")))
            for c in g[step // 2::step][:n // 4 or int(fam % 6 == 0)]:
                pid = "%s:%s" % (mod.__name__.split(".")[-1], c.id)
                s = dict(build=c.spec["build"], feeds=c.spec["feeds"], extra_ops=c.spec["extra_ops"], tol=c.spec["tol"])
                out.append(Case("stub/" + pid, dict(s, what="stub")))
    for env in (None, "TRUE", "true", "FALSE", "false", "0", ""):
        for large in (False, True):
            for how in ("raise", "constructor", "wreck"):
                out.append(Case("api/%s/%d/%s" % (env, large, how), dict(api=True, env=env, large=large, how=how)))
    return out
