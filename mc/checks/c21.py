"""C21: every sequence of graph edits leaves the graph consistent.

Explicit-state exploration of the real tf2onnx.graph.Graph against a reference model: from each base graph
every sequence of edit operations up to the depth bound is executed on the implementation (states are rebuilt by replaying
the trace) and on the model; after every step all observations of the implementation are compared with the model.
"""
import copy
import itertools

import numpy as np
from onnx import AttributeProto, TensorProto, helper, numpy_helper

from mc.core import Case, Outcome, sig_of

ID = "C21"
LEVEL = "model_checking"
TECHNIQUE = ("explicit-state model checking: exhaustive exploration of all edit sequences up to a depth, each executed on the real "
             "Graph class in lock step with a reference model (conformance checked after every transition)")
RULE = "all sequences of applicable edits up to the depth bound from each base graph"
ASSUMPTIONS = ["base graphs have at most 8 nodes and two levels of nested graphs",
               "edits that would close a cycle or read a tensor which is not visible are outside the enumeration",
               "which unreachable nodes delete_unused_nodes drops inside nested graphs before it looks at what they read is left open"]
GROUP = 1

F = TensorProto.FLOAT
SINGLE = ["Neg", "Abs", "Relu"]


# ------------------------------------------------------------------ reference model
class MNode:
    def __init__(self, name, op, ins, outs, attrs=(), domain="", subs=None):
        self.name, self.op, self.ins, self.outs = name, op, list(ins), list(outs)
        self.attrs, self.domain, self.subs = tuple(attrs), domain, dict(subs or {})

    def key(self):
        return (self.name, self.op, tuple(self.ins), tuple(self.outs), self.attrs, self.domain,
                tuple(sorted((k, g.key()) for k, g in self.subs.items())))


class MGraph:
    def __init__(self, parent=None):
        self.nodes, self.inputs, self.outputs, self.info, self.parent = {}, [], [], {}, parent

    def key(self):
        return (tuple(sorted(n.key() for n in self.nodes.values())), tuple(self.inputs), tuple(self.outputs),
                tuple(sorted(self.info.items())))

    def clone(self, parent=None):
        g = MGraph(parent)
        g.inputs, g.outputs, g.info = list(self.inputs), list(self.outputs), dict(self.info)
        for n in self.nodes.values():
            g.nodes[n.name] = MNode(n.name, n.op, n.ins, n.outs, n.attrs, n.domain)
            g.nodes[n.name].subs = {k: s.clone(g) for k, s in n.subs.items()}
        return g

    def add(self, name, op, ins, outs=None, attrs=(), domain="", shape=(2,), shapes=None):
        n = MNode(name, op, ins, outs if outs is not None else [name + ":0"], attrs, domain)
        self.nodes[name] = n
        for i, o in enumerate(n.outs):
            self.info[o] = (F, tuple(shapes[i] if shapes else shape))
        return n.outs[0]

    def sub(self, node, attr):
        g = MGraph(self)
        self.nodes[node].subs[attr] = g
        return g

    def producer(self, t):
        for n in self.nodes.values():
            if t in n.outs:
                return n
        return None

    def find(self, t):
        g = self
        while g is not None:
            n = g.producer(t)
            if n is not None:
                return g, n
            g = g.parent
        return None, None

    def all_graphs(self, path=()):
        yield path, self
        for n in self.nodes.values():
            for k in n.subs:
                yield from n.subs[k].all_graphs(path + ((n.name, k),))

    def at(self, path):
        g = self
        for n, k in path:
            g = g.nodes[n].subs[k]
        return g

    def readers(self, t, path=()):
        """[(path, node name)] of the nodes that read t, nested graphs included"""
        out = []
        for n in self.nodes.values():
            if t in n.ins:
                out.append((path, n.name))
            for k in n.subs:
                out.extend(n.subs[k].readers(t, path + ((n.name, k),)))
        return out

    def reads(self, n):
        """tensors of this graph or an outer one the node depends on"""
        out = set(i for i in n.ins if i)
        for s in n.subs.values():
            local = {o for m in s.nodes.values() for o in m.outs}
            for m in s.nodes.values():
                out |= s.reads(m) - local
        return out

    def acyclic(self):
        prod = {o: n for n in self.nodes.values() for o in n.outs}
        state = {}

        def visit(n):
            if state.get(n.name) == 1:
                return False
            if state.get(n.name) == 2:
                return True
            state[n.name] = 1
            for t in self.reads(n):
                if t in prod and not visit(prod[t]):
                    return False
            state[n.name] = 2
            return True
        return all(visit(n) for n in self.nodes.values()) and all(
            s.acyclic() for n in self.nodes.values() for s in n.subs.values())

    def live(self):
        keep, todo = set(), list(self.outputs) + list(self.inputs)
        while todo:
            n = self.producer(todo.pop())
            if n is None or n.name in keep:
                continue
            keep.add(n.name)
            todo.extend(self.reads(n))
        return keep

    def truly_live(self):
        """the same, not counting what dead nodes of nested graphs read"""
        keep, todo = set(), list(self.outputs) + list(self.inputs)
        while todo:
            n = self.producer(todo.pop())
            if n is None or n.name in keep:
                continue
            keep.add(n.name)
            todo.extend(i for i in n.ins if i)
            for s in n.subs.values():
                todo.extend(s.live_reads())
        return keep

    def live_reads(self):
        keep = self.truly_live()
        local = {o for n in self.nodes.values() for o in n.outs}
        out = set(self.outputs)
        for k in keep:
            n = self.nodes[k]
            out |= set(i for i in n.ins if i)
            for s in n.subs.values():
                out |= s.live_reads()
        return out - local


# ------------------------------------------------------------------ base graphs
def base_chain():
    g = MGraph()
    x = g.add("x", "Placeholder", [], ["x"], shape=(2,))
    a = g.add("a", "Neg", [x], shape=(3,))
    b = g.add("b", "LeakyRelu", [a], attrs=(("alpha", 0.5),), shape=(4,))
    c = g.add("c", "Abs", [b], shape=(5,))
    g.add("o", "Identity", [c], ["out"], shape=(6,))
    g.inputs, g.outputs = ["x"], ["out"]
    return g


def base_diamond():
    g = MGraph()
    x = g.add("x", "Placeholder", [], ["x"], shape=(2,))
    a = g.add("a", "Neg", [x], shape=(3,))
    b = g.add("b", "Relu", [a], shape=(4,))
    c = g.add("c", "Abs", [a], shape=(5,))
    d = g.add("d", "Add", [b, c], shape=(6,))
    e = g.add("e", "Mul", [a, d], shape=(7,))
    g.add("o", "Identity", [e], ["out"], shape=(8,))
    g.add("o2", "Identity", [c], ["out2"], shape=(9,))
    g.inputs, g.outputs = ["x"], ["out", "out2"]
    return g


def base_repeat():
    g = MGraph()
    x = g.add("x", "Placeholder", [], ["x"], shape=(2,))
    y = g.add("y", "Placeholder", [], ["y"], shape=(3,))
    a = g.add("a", "Neg", [x], shape=(4,))
    k = g.add("k", "Const", [], ["k"], attrs=(("value", 1.5),), shape=(1,))
    b = g.add("b", "Mul", [a, a], shape=(5,))
    c = g.add("c", "Concat", [a, b, a], attrs=(("axis", 0),), shape=(6,))
    d = g.add("d", "Clip", [c, "", k], shape=(7,))
    g.add("o", "Identity", [d], ["out"], shape=(8,))
    g.inputs, g.outputs = ["x", "y"], ["out"]
    return g


def base_multi():
    g = MGraph()
    x = g.add("x", "Placeholder", [], ["x"], shape=(2,))
    g.add("s", "Split", [x], ["s:0", "s:1"], attrs=(("axis", 0),), shapes=[(3,), (4,)])
    a = g.add("a", "Add", ["s:0", "s:0"], shape=(5,))
    b = g.add("b", "Sub", ["s:1", "s:0"], shape=(6,))
    d = g.add("d", "Custom", [a, b], domain="my.domain", attrs=(("mode", "m"),), shape=(7,))
    g.add("o", "Identity", [d], ["out"], shape=(8,))
    g.add("o2", "Identity", ["s:1"], ["out2"], shape=(9,))
    g.inputs, g.outputs = ["x"], ["out", "out2"]
    return g


def base_if():
    g = MGraph()
    x = g.add("x", "Placeholder", [], ["x"], shape=(2,))
    a = g.add("a", "Neg", [x], shape=(3,))
    y = g.add("y", "If", [x], shape=(4,))
    t = g.sub("y", "then_branch")
    t1 = t.add("t1", "Relu", [a], shape=(5,))
    t.add("t2", "Mul", [t1, a], shape=(6,))
    t.outputs = ["t2:0"]
    e = g.sub("y", "else_branch")
    e.add("e1", "Abs", [a], shape=(7,))
    e.outputs = ["e1:0"]
    d = g.add("d", "Add", [y, a], shape=(8,))
    g.add("o", "Identity", [d], ["out"], shape=(9,))
    g.inputs, g.outputs = ["x"], ["out"]
    return g


def base_nested():
    g = MGraph()
    x = g.add("x", "Placeholder", [], ["x"], shape=(2,))
    a = g.add("a", "Neg", [x], shape=(3,))
    y = g.add("y", "Loop", [x, "", a], shape=(4,))
    b = g.sub("y", "body")
    b.add("i", "Placeholder", [], ["i"], shape=(5,))
    b1 = b.add("b1", "Relu", ["i"], shape=(6,))
    b2 = b.add("b2", "If", [b1], shape=(7,))
    t = b.sub("b2", "then_branch")
    t.add("t1", "Add", [a, b1], shape=(8,))
    t.outputs = ["t1:0"]
    e = b.sub("b2", "else_branch")
    e.add("e1", "Abs", ["i"], shape=(9,))
    e.outputs = ["e1:0"]
    b.add("b3", "Identity", [b2], shape=(10,))
    b.inputs, b.outputs = ["i"], ["b3:0"]
    g.add("o", "Identity", [y], ["out"], shape=(11,))
    g.inputs, g.outputs = ["x"], ["out"]
    return g


def base_twoif():
    g = MGraph()
    x = g.add("x", "Placeholder", [], ["x"], shape=(2,))
    a = g.add("a", "Neg", [x], shape=(3,))
    for i in "12":
        g.add("y" + i, "If", [x], shape=(4,))
        t = g.sub("y" + i, "then_branch")
        t.add("t" + i, "Relu", [a], shape=(5,))
        t.outputs = ["t%s:0" % i]
        e = g.sub("y" + i, "else_branch")
        e.add("e" + i, "Abs", [x], shape=(6,))
        e.outputs = ["e%s:0" % i]
        g.add("o" + i, "Identity", ["y%s:0" % i], ["out" + i], shape=(7,))
    g.inputs, g.outputs = ["x"], ["out1", "out2"]
    return g


def base_samename():
    """node names (not tensor names) that are used both outside and inside a nested graph"""
    g = MGraph()
    x = g.add("x", "Placeholder", [], ["x"], shape=(2,))
    a = g.add("a", "Neg", [x], shape=(3,))
    y = g.add("y", "If", [x], shape=(4,))
    t = g.sub("y", "then_branch")
    t1 = t.add("t1", "Relu", [a], ["T1"], shape=(5,))
    t.add("a", "Mul", [t1, t1], ["T2"], shape=(6,))
    t.outputs = ["T2"]
    e = g.sub("y", "else_branch")
    e.add("a", "Abs", [a], ["E1"], shape=(7,))
    e.outputs = ["E1"]
    g.add("o", "Identity", [y], ["out"], shape=(9,))
    g.inputs, g.outputs = ["x"], ["out"]
    return g


BASES = {"chain": base_chain, "diamond": base_diamond, "repeat": base_repeat, "multi": base_multi, "if": base_if,
         "nested": base_nested, "twoif": base_twoif, "samename": base_samename}


# ------------------------------------------------------------------ implementation
def setup():
    from tf2onnx import constants, graph, utils  # pylint: disable=unused-import
    globals().update(G=graph, U=utils)


def build(mg):
    g = G.Graph([], output_shapes={}, dtypes={}, opset=13, extra_opset=[helper.make_opsetid("my.domain", 1)], output_names=[])
    for n in mg.nodes.values():
        shapes, dtypes = [list(mg.info[o][1]) for o in n.outs], [mg.info[o][0] for o in n.outs]
        if n.op == "Placeholder":
            g.add_graph_input(n.outs[0], dtypes[0], shapes[0])
            n2 = g.inputs[-1]
            if n2.name != n.name:   # the name is the model's
                g.remove_node(n2.name)
                n2 = g.make_node("Placeholder", [], outputs=n.outs, name=n.name, dtypes=dtypes, shapes=shapes)
                g.inputs.append(n2)
        elif n.op == "Const":
            g.make_const(n.name, np.array([dict(n.attrs)["value"]], np.float32))
        else:
            node = g.make_node(n.op, list(n.ins), attr=dict(n.attrs), outputs=list(n.outs), name=n.name, dtypes=dtypes,
                               shapes=shapes, domain=n.domain)
            for k, s in n.subs.items():
                node.set_body_graph_as_attr(k, build(s))
    for o in mg.outputs:
        g.add_graph_output(o)
    return g


def at(g, path):
    for n, k in path:
        g = g.get_node_by_name(n).get_body_graphs()[k]
    return g


class Bad(Exception):
    pass


def need(cond, msg, *args):
    if not cond:
        raise Bad(msg % args if args else msg)


def attr_view(node):
    out = []
    for a in node.attr.values():
        v = helper.get_attribute_value(a)
        if isinstance(v, TensorProto):
            v = float(numpy_helper.to_array(v).ravel()[0])
        elif a.type == AttributeProto.GRAPH:
            continue    # written by make_graph, the nested graphs themselves are compared
        elif isinstance(v, bytes):
            v = v.decode()
        out.append((a.name, v))
    return tuple(sorted(out))


def check(g, mg, root=None, path=()):
    """every observation of the implementation agrees with the model"""
    root = root or mg
    nodes = g.get_nodes()
    names = [n.name for n in nodes]
    need(sorted(names) == sorted(mg.nodes), "nodes of %s: %s, expected %s", path, sorted(names), sorted(mg.nodes))
    need(list(g.outputs) == mg.outputs, "outputs of %s: %s, expected %s", path, g.outputs, mg.outputs)
    need([i.output[0] for i in g.inputs] == mg.inputs, "inputs of %s: %s, expected %s", path, [i.output[0] for i in g.inputs], mg.inputs)
    for n in nodes:
        m = mg.nodes[n.name]
        need(n.type == m.op and n.domain == m.domain, "node %s is %s of %r", n.name, n.type, n.domain)
        need(list(n.input) == m.ins, "node %s%s reads %s, expected %s", path, n.name, n.input, m.ins)
        need(list(n.output) == m.outs, "node %s%s writes %s, expected %s", path, n.name, n.output, m.outs)
        need(n.graph is g, "node %s does not know its graph", n.name)
        need(g.get_node_by_name(n.name) is n, "get_node_by_name(%s) is another node", n.name)
        for o in m.outs:
            need(g.get_node_by_output(o) is n, "get_node_by_output(%s) is %s", o, getattr(g.get_node_by_output(o), "name", None))
            d, s = mg.info[o]
            need(g.get_dtype(o) == d, "dtype of %s is %s", o, g.get_dtype(o))
            need(tuple(g.get_shape(o) or ()) == s, "shape of %s is %s, expected %s", o, g.get_shape(o), s)
        for i, t in zip(n.inputs, m.ins):
            owner, prod = mg.find(t) if t else (None, None)
            need((i is None) == (prod is None) and (i is None or i.name == prod.name and t in i.output),
                 "the producer of %s is %s, expected %s", t, i, prod and prod.name)
        need(attr_view(n) == tuple(sorted(m.attrs)), "attributes of %s are %s, expected %s", n.name, attr_view(n), m.attrs)
        bodies = n.get_body_graphs() or {}
        need(set(bodies) == set(m.subs), "nested graphs of %s: %s, expected %s", n.name, sorted(bodies), sorted(m.subs))
        need(set(n.get_implicit_inputs()) - {""} >= mg.reads(m) - set(m.ins), "implicit inputs of %s: %s", n.name, n.get_implicit_inputs())
        for k, b in bodies.items():
            need(b.parent_graph is g, "nested graph %s of %s does not know its parent", k, n.name)
            check(b, m.subs[k], root, path + ((n.name, k),))
    need(not g.check_integrity(), "check_integrity: %s", g.check_integrity())
    # everybody who reads a tensor, and nobody else
    seen = set()
    h = mg
    byid = {}
    index(g, (), byid)
    while h is not None:
        for m in h.nodes.values():
            for t in m.outs:
                if t in seen:
                    continue
                seen.add(t)
                want = sorted(mg.readers(t))
                got = sorted(byid.get(id(n), (("removed",), n.name)) for n in g.find_output_consumers(t))
                need(got == want, "readers of %s seen from %s: %s, expected %s", t, path, got, want)
        h = h.parent
    for t in set(mg.info) - seen:
        need(g.get_node_by_output(t) is None and not g.find_output_consumers(t), "%s still exists", t)
    # removal queries
    if not path:
        free = {}
        for m in mg.nodes.values():
            free[m.name] = {r for t in m.outs for r in mg.readers(t)}
        todo = [(a,) for a in mg.nodes] + [(a, b) for a, b in itertools.permutations(mg.nodes, 2) if ((), b) in free[a]]
        for names in todo:
            mine = {((), a) for a in names}
            want = all(free[a] <= mine for a in names)
            ns = [g.get_node_by_name(a) for a in names]
            need(g.is_safe_to_remove_nodes(ns) == want, "is_safe_to_remove_nodes(%s) is %s", names, not want)
            left = set(names)
            while any(not free[a] <= {((), b) for b in left} for a in left):
                left = {a for a in left if free[a] <= {((), b) for b in left}}
            need(sorted(n.name for n in g.safe_to_remove_nodes(ns)) == sorted(left), "safe_to_remove_nodes(%s)", names)


def index(g, path, out):
    for n in g.get_nodes():
        out[id(n)] = (path, n.name)
        for k, b in (n.get_body_graphs() or {}).items():
            index(b, path + ((n.name, k),), out)


def check_proto(p, mg, outer):
    """the exported graph is the model: same nodes, inputs, outputs, in an order in which everything is available"""
    avail = set(outer)
    init = {t.name: t for t in p.initializer}
    avail |= set(init)
    ins = [i.name for i in p.input]
    need(ins == mg.inputs, "exported inputs %s, expected %s", ins, mg.inputs)
    need([o.name for o in p.output] == mg.outputs, "exported outputs %s", [o.name for o in p.output])
    for v in list(p.input) + list(p.output):
        d, s = mg.info[v.name]
        need(v.type.tensor_type.elem_type == d and tuple(x.dim_value for x in v.type.tensor_type.shape.dim) == s,
             "exported type of %s", v.name)
    avail |= set(ins)
    consts = {n.outs[0] for n in mg.nodes.values() if n.op == "Const"}
    need(set(init) == consts, "exported constants %s, expected %s", sorted(init), sorted(consts))
    left = {n.name: n for n in mg.nodes.values() if n.op not in ("Const", "Placeholder")}
    for n in p.node:
        m = left.pop(n.name, None)
        need(m is not None, "node %s exported twice or never there", n.name)
        need((n.op_type, n.domain, list(n.input), list(n.output)) == (m.op, m.domain, m.ins, m.outs), "exported node %s is %s %s %s",
             n.name, n.op_type, list(n.input), list(n.output))
        need(mg.reads(m) <= avail, "node %s is exported before %s", n.name, sorted(mg.reads(m) - avail))
        got = []
        for a in n.attribute:
            if a.type == AttributeProto.GRAPH:
                need(a.name in m.subs, "nested graph %s of %s", a.name, n.name)
                check_proto(a.g, m.subs[a.name], avail)
            else:
                v = helper.get_attribute_value(a)
                got.append((a.name, v.decode() if isinstance(v, bytes) else v))
        need(len([a for a in n.attribute if a.type == AttributeProto.GRAPH]) == len(m.subs), "nested graphs of %s", n.name)
        need(sorted(got) == sorted(m.attrs), "exported attributes of %s: %s", n.name, got)
        avail |= set(n.output)
    need(not left, "nodes %s are not exported", sorted(left))
    need(set(mg.outputs) <= avail, "outputs without producer")


# ------------------------------------------------------------------ edits
def visible(mg):
    """tensors a node of this graph may read: [(tensor, in this graph)]"""
    out, h = [], mg
    while h is not None:
        out.extend((t, h is mg) for n in h.nodes.values() for t in n.outs)
        h = h.parent
    return out


def ok_after(root, path, f):
    """the model after edit f, or None when the edit is outside the enumeration"""
    new = root.clone()
    if f(new.at(path)) is False:
        return None
    return new if new.acyclic() and scoped(new, set()) else None


def scoped(mg, outer):
    local = {o for n in mg.nodes.values() for o in n.outs} | outer
    for n in mg.nodes.values():
        if any(i and i not in local for i in n.ins):
            return False
        if not all(scoped(s, local) for s in n.subs.values()):
            return False
    return all(o in local for o in mg.outputs)


def edits(root, full, k):
    """[(label, model after the edit, do(graph))] for every applicable edit; k numbers the new names"""
    out, labels = [], set()
    nm = "new%d" % k

    def emit(label, path, mf, do, sync=None):
        label += "@" + "/".join("%s.%s" % p for p in path) if path else ""
        if label in labels:
            return
        labels.add(label)
        new = ok_after(root, path, mf)
        if new is not None:
            out.append((label, new, path, do, sync))

    def sub_all(m, old, new):
        for n in m.nodes.values():
            n.ins = [new if i == old else i for i in n.ins]
            for s in n.subs.values():
                sub_all(s, old, new)

    for path, mg in root.all_graphs():
        vis = visible(mg)
        tens = [t for t, _ in vis]
        own = [t for t, mine in vis if mine]
        read = {t for t in tens if mg.readers(t)}
        # replace_all_inputs
        for old in tens:
            for new in tens:
                if old == new or (old not in read and not full) or not (full or new in own[:3] or old in own[:3]):
                    continue
                emit("rai(%s,%s)" % (old, new), path, lambda m, o=old, w=new: sub_all(m, o, w),
                     lambda g, o=old, w=new: g.replace_all_inputs(o, w))
                if old in read:
                    emit("raiops(%s,%s)" % (old, new), path, lambda m, o=old, w=new: sub_all(m, o, w),
                         lambda g, o=old, w=new: g.replace_all_inputs(o, w, ops=g.get_nodes()))
        for n in mg.nodes.values():
            for i, t in enumerate(n.ins):
                if not t:
                    continue
                # replace_input, indexed and not
                cands = tens if full else [x for x in tens if x in own][:2] + [x for x in tens if x not in own][:1]
                for new in cands:
                    if new == t:
                        continue

                    def mi(m, nn=n.name, i=i, w=new):
                        m.nodes[nn].ins[i] = w
                    emit("ri(%s,%d,%s)" % (n.name, i, new), path, mi,
                         lambda g, nn=n.name, i=i, t=t, w=new: g.replace_input(g.get_node_by_name(nn), t, w, i))
                    if n.ins.index(t) == i:
                        def ma(m, nn=n.name, t=t, w=new):
                            m.nodes[nn].ins = [w if x == t else x for x in m.nodes[nn].ins]
                        emit("ria(%s,%s,%s)" % (n.name, t, new), path, ma,
                             lambda g, nn=n.name, t=t, w=new: g.replace_input(g.get_node_by_name(nn), t, w))
                # insert_new_node_on_input, indexed and not, one or two inputs
                first = n.ins.index(t) == i
                for idx in ([i] + ([None] if first else [])):
                    for extra in ([None] + ([x for x in tens][:1] if full else [])):
                        ins = [t] if extra is None else [t, extra]

                        def mn(m, nn=n.name, i=i, ins=tuple(ins)):
                            op = "Neg" if len(ins) == 1 else "Concat"
                            shape = m.find(ins[0])[0].info[ins[0]][1]
                            m.add(nm, op, ins, attrs=(("axis", 0),) if op == "Concat" else (),
                                  shape=shape if op == "Neg" else tuple(
                                      [sum(m.find(q)[0].info[q][1][0] for q in ins)]))
                            m.nodes[nn].ins[i] = nm + ":0"

                        def dn(g, nn=n.name, idx=idx, ins=tuple(ins)):
                            kw = {} if len(ins) == 1 else {"axis": 0}
                            r = g.insert_new_node_on_input(g.get_node_by_name(nn), "Neg" if len(ins) == 1 else "Concat",
                                                           list(ins) if len(ins) > 1 else ins[0], name=nm, input_index=idx, **kw)
                            need(r is g.get_node_by_name(nm), "insert_new_node_on_input does not return the new node")
                        emit("ini(%s,%s,%s%s)" % (n.name, i, idx, "," + extra if extra else ""), path, mn, dn)
                # remove_input
                if len(n.ins) > 1 and n.op not in ("If", "Loop"):
                    def mr(m, nn=n.name, i=i):
                        del m.nodes[nn].ins[i]
                    emit("rmi(%s,%d)" % (n.name, i), path, mr,
                         lambda g, nn=n.name, i=i, t=t: g.remove_input(g.get_node_by_name(nn), t, i))
                    if n.ins.count(t) == 1:
                        emit("rmia(%s,%d)" % (n.name, i), path, mr,
                             lambda g, nn=n.name, t=t: g.remove_input(g.get_node_by_name(nn), t))
            # replace_inputs
            if n.ins:
                lists = [list(reversed(n.ins)), n.ins[:1] * len(n.ins), n.ins[:1], n.ins + [own[0]]] + [
                    [t] * len(n.ins) for t in (own if full else own[:2])]
                for j, l in enumerate(lists):
                    if l != n.ins and l not in lists[:j]:
                        def ms(m, nn=n.name, l=tuple(l)):
                            m.nodes[nn].ins = list(l)
                        emit("ris(%s,%s)" % (n.name, ",".join(l)), path, ms,
                             lambda g, nn=n.name, l=tuple(l): g.replace_inputs(g.get_node_by_name(nn), list(l)))
            # remove_node
            if not any(mg.readers(t) or t in mg.outputs for t in n.outs):
                def md(m, nn=n.name):
                    for t in m.nodes[nn].outs:
                        m.info.pop(t)
                        if t in m.inputs:
                            m.inputs.remove(t)
                    del m.nodes[nn]
                emit("rm(%s)" % n.name, path, md, lambda g, nn=n.name: g.remove_node(nn))
        # insert_new_node_on_output / make_node
        for t in own:
            def mo(m, t=t):
                shape = m.info[t][1]
                sub_all(m, t, nm + ":0")
                m.add(nm, "Abs", [t], shape=shape)
            emit("ino(%s)" % t, path, mo, lambda g, t=t: g.insert_new_node_on_output("Abs", t, name=nm))
        for t in tens if full else own[:2]:
            for ins in ([t], [t, t], [own[0], t]) if full else ([t],):
                def mk(m, ins=tuple(ins)):
                    m.add(nm, "Sum", list(ins), shape=(12,))
                emit("mk(%s)" % ",".join(ins), path, mk,
                     lambda g, ins=tuple(ins): g.make_node("Sum", list(ins), name=nm, shapes=[[12]], dtypes=[F]))
        # outputs
        for t in own:
            if t not in mg.outputs and not path:
                emit("ago(%s)" % t, path, lambda m, t=t: m.outputs.append(t), lambda g, t=t: g.add_graph_output(t))
        # node list
        emit("topo", path, lambda m: None, lambda g: g.topological_sort(g.get_nodes()))
        emit("reset", path, lambda m: None, lambda g: g.reset_nodes(list(reversed(g.get_nodes()))))
        # a nested graph is replaced by another one
        for n in mg.nodes.values():
            for a in n.subs:
                def mb(m, nn=n.name, a=a):
                    s = MGraph(m)
                    m.nodes[nn].subs[a] = s
                    own0 = next(iter(m.nodes.values())).outs[0]
                    s.add(nm, "Neg", [own0], shape=(13,))
                    s.outputs = [nm + ":0"]

                def db(g, nn=n.name, a=a, t=next(iter(mg.nodes.values())).outs[0]):
                    s = g.create_new_graph_with_same_config()
                    s.parent_graph = g
                    s.make_node("Neg", [t], name=nm, shapes=[[13]], dtypes=[F])
                    s.add_graph_output(nm + ":0")
                    g.get_node_by_name(nn).set_body_graph_as_attr(a, s)
                if not mg.nodes[n.name].subs[a].inputs:
                    emit("body(%s,%s)" % (n.name, a), path, mb, db)
    # whole graph
    for a, b in ([] if not full else itertools.combinations(sorted(root.nodes), 2)):
        def msr(m, a=a, b=b):
            free = {x: {r for t in m.nodes[x].outs for r in m.readers(t)} for x in (a, b)}
            gone = [a, b]
            while any(not free[x] <= {((), y) for y in gone} for x in gone):
                gone = [x for x in gone if free[x] <= {((), y) for y in gone}]
            if not gone or any(set(m.nodes[x].outs) & set(m.outputs) for x in gone):
                return False
            for x in gone:
                for t in m.nodes[x].outs:
                    m.info.pop(t)
                    if t in m.inputs:
                        m.inputs.remove(t)
                del m.nodes[x]
            return None
        emit("srm(%s,%s)" % (a, b), (), msr,
             lambda g, a=a, b=b: g.safe_remove_nodes([g.get_node_by_name(a), g.get_node_by_name(b)]))
    emit("delete_unused", (), lambda m: None, lambda g: g.delete_unused_nodes(g.outputs), sync="prune")
    emit("export", (), lambda m: None, lambda g: g.make_graph("doc"), sync="prune")
    emit("deepcopy", (), lambda m: None, None)
    if not any(n.subs for n in root.nodes.values()):
        for t in [x for n in root.nodes.values() for x in n.outs]:
            def mren(m, t=t):
                w = "renamed%d" % k
                for n in m.nodes.values():
                    n.ins = [w if i == t else i for i in n.ins]
                    n.outs = [w if i == t else i for i in n.outs]
                m.outputs = [w if i == t else i for i in m.outputs]
                m.inputs = [w if i == t else i for i in m.inputs]
                m.info[w] = m.info.pop(t)
            emit("ren(%s)" % t, (), mren, lambda g, t=t: g.rename_tensors({t: "renamed%d" % k}))
    return out


def prune(g, mg):
    """the model follows the implementation, after checking that it kept all that is needed and no more than was reachable"""
    keep = {n.name for n in g.get_nodes()}
    need(keep >= mg.truly_live(), "delete_unused_nodes drops %s", sorted(mg.truly_live() - keep))
    need(keep <= mg.live(), "delete_unused_nodes keeps %s", sorted(keep - mg.live()))
    for name in list(mg.nodes):
        n = mg.nodes[name]
        if name not in keep:
            for t in n.outs:
                mg.info.pop(t)
            del mg.nodes[name]
            continue
        for k, s in n.subs.items():
            b = (g.get_node_by_name(name).get_body_graphs() or {}).get(k)
            need(b is not None, "nested graph %s of %s is gone", k, name)
            prune(b, s)


# ------------------------------------------------------------------ exploration
def state_key(obj, seen=None):
    """canonical form of everything an implementation graph holds (used to recognise states already explored)"""
    seen = {} if seen is None else seen
    if isinstance(obj, (str, int, float, bool, type(None), bytes)):
        return obj
    if isinstance(obj, G.Node):
        return ("N", obj.name, tuple(obj.input), tuple(obj.output))
    if isinstance(obj, G.Graph):
        if id(obj) in seen:
            return ("G", seen[id(obj)])
        seen[id(obj)] = len(seen)
        return ("G", tuple((k, state_key(v, seen)) for k, v in sorted(vars(obj).items()) if k not in ("graph_name",)))
    if isinstance(obj, dict):
        return ("D", tuple(sorted(((state_key(k, seen) if not isinstance(k, int) else "#", state_key(v, seen)) for k, v in obj.items()), key=repr)))
    if isinstance(obj, (set, frozenset)):
        return ("S", tuple(sorted((state_key(v, seen) for v in obj), key=repr)))
    if isinstance(obj, (list, tuple)):
        return ("L", tuple(state_key(v, seen) for v in obj))
    return type(obj).__name__


def step(g, mg, e):
    label, new, path, do, sync = e
    new = new.clone()
    if do is None:
        h = copy.deepcopy(g)
        check(g, mg)
        return h, new
    do(at(g, path))
    if sync == "prune":
        prune(g, new)
    return g, new


FIRST = {}


def explore(base, first, depth, fulls, stats, only=None):
    """all traces that start with edit number `first`; fulls[i] says whether the whole alphabet is used at depth i"""
    seen = set()
    if (base, fulls[0]) not in FIRST:
        m = BASES[base]()
        FIRST[base, fulls[0]] = (m, edits(m, fulls[0], 0))
    mg0, e0 = FIRST[base, fulls[0]]
    if first >= len(e0):
        return None

    def replay(trace):
        g, mg = build(mg0), mg0.clone()
        originals = []
        for e in trace:
            h, new = step(g, mg, e)
            if h is not g:
                originals.append((g, mg))
            g, mg = h, new
        return g, mg, originals

    stack = [[e0[first]]]
    while stack:
        trace = stack.pop()
        labels = " ; ".join(e[0] for e in trace)
        try:
            g, mg, originals = replay(trace)
            check(g, mg)
            for h, m in originals:
                check(h, m)     # editing a copy leaves the original alone
        except Bad as ex:
            return Outcome("mismatch", "%s: %s => %s" % (base, labels, ex), extra=dict(stats))
        except Exception as ex:  # pylint: disable=broad-except
            return Outcome("exception", "%s: %s => %s: %s" % (base, labels, type(ex).__name__, ex), extra=dict(stats))
        stats["transitions"] += 1
        key = hash((state_key(g), mg.key()))
        if key in seen:
            continue
        seen.add(key)
        stats["states"] += 1
        nxt = edits(mg, fulls[len(trace)], len(trace)) if len(trace) < depth else None
        try:
            p = g.make_graph("doc", graph_name="exported")
            m2 = mg.clone()
            prune(g, m2)
            check_proto(p, m2, ())
        except Bad as ex:
            return Outcome("mismatch", "%s: %s ; export => %s" % (base, labels, ex), extra=dict(stats))
        except Exception as ex:  # pylint: disable=broad-except
            return Outcome("exception", "%s: %s ; export => %s: %s" % (base, labels, type(ex).__name__, ex), extra=dict(stats))
        stats["traces"] += 1
        if nxt is not None:
            stack.extend(trace + [e] for e in reversed(nxt))
    return Outcome("ok", sig=sig_of(base, first, len(seen)), evals=stats["transitions"], extra=dict(stats))


def cases(tier):
    """every edit as a first step; the quick tier goes on only after the edits of the reduced alphabet"""
    setup()
    out = []
    for b in BASES:
        m = BASES[b]()
        FIRST[b, True] = (m, edits(m, True, 0))
        reduced = {e[0] for e in edits(m, False, 0)}
        for i, e in enumerate(FIRST[b, True][1]):
            if tier == "quick":
                depth = 2 if e[0] in reduced else 1
            else:
                depth = 3 if e[0] in reduced else 2
            out.append(Case("%s/%s" % (b, e[0].replace(" ", "")), (b, i, depth, (True, tier != "quick" and depth == 2, False))))
    return out


def run_group(cs):
    out = []
    for c in cs:
        b, i, depth, fulls = c.spec
        out.append(explore(b, i, depth, fulls, {"states": 0, "transitions": 0, "traces": 0}))
    return out
