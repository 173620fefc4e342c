"""C31: converting for a target changes which operators are used, never what is computed."""
import importlib

import onnx
from onnx import TensorProto, helper
from tf2onnx import constants, optimizer, tfonnx

from mc import tfcase
from mc.checks import c14
from mc.core import Case

tfcase.define(globals(), "C31", rule="one program per (operator family of C01-C07, C08, C10, C12; selection of 1 quick, 3 thorough, evenly spread) and families made for the targets, x every target and "
              "pairs of targets x opsets: converted for the target, the restrictions the target promises are checked on the emitted graph, ChannelsLast operators are replaced by their "
              "definition (transpose, operator, transpose), the model is run and compared with TensorFlow", group=8)
FLOAT_ONLY = {"rs5": {"Unsqueeze": 1, "Mul": 2, "Concat": 99, "Slice": 1, "Transpose": 1},
              "rs6": {"Div": 2, "IsNaN": 1, "Max": 99, "Min": 99, "ReduceSum": 1, "Slice": 1, "Split": 1, "Tile": 1, "Transpose": 1}}
FIRST = {"AveragePool", "BatchNormalization", "Conv", "ConvInteger", "ConvTranspose", "GlobalAveragePool", "GlobalLpPool", "GlobalMaxPool", "InstanceNormalization", "LpPool", "LRN", "MaxPool",
         "MaxRoiPool", "MaxUnpool", "QLinearConv"}


class Target:
    def __init__(self, *names):
        self.names = names
        self.__name__ = "+".join(names)

    def __call__(self, g, ins, outs, opset, **kw):
        graph = tfonnx.process_tf_graph(g, opset=opset, input_names=ins, output_names=outs, target=list(self.names), **kw)
        for t in self.names:
            self.promise(graph, t)
        graph = optimizer.optimize_graph(graph)
        ranks = {o: graph.get_rank(o) for n in graph.get_nodes() for o in n.output}
        model = graph.make_model("mc")
        if "nhwc" in self.names:
            plain(model, ranks, opset)
        return model

    def promise(self, graph, t):
        for n in graph.get_nodes():
            if t == "nhwc" and n.domain in ("", "ai.onnx"):
                assert n.type not in FIRST, "PROMISE: %s is left in the model" % n.type
            k = FLOAT_ONLY.get(t, {}).get(n.type, 0)
            if graph.opset == 10 and n.type == "Slice" and t == "rs6":
                k = 0   # Slice-10 is left as it is
            for i in n.input[:k]:
                assert graph.get_dtype(i) in (TensorProto.FLOAT, None, TensorProto.STRING), "PROMISE: %s reads type %s" % (n.type, graph.get_dtype(i))


def plain(model, ranks, opset):
    """ChannelsLastX is, by definition, X between two transposes"""
    nodes = []
    for n in model.graph.node:
        if n.domain == constants.CONTRIB_OPS_DOMAIN and n.op_type.startswith("ChannelsLast"):
            r = ranks[n.output[0]]
            x, y = n.input[0], n.output[0]
            n.op_type, n.domain = n.op_type[len("ChannelsLast"):], ""
            assert n.op_type in FIRST, n.op_type
            known = onnx.defs.get_schema(n.op_type, opset, "").attributes  # the exporter drops the others only from operators it knows
            for a in [a for a in n.attribute if a.name not in known]:
                n.attribute.remove(a)
            n.input[0], n.output[0] = x + "/first/" + n.name, y + "/first"
            nodes += [helper.make_node("Transpose", [x], [n.input[0]], perm=[0, r - 1] + list(range(1, r - 1))), n,
                      helper.make_node("Transpose", [n.output[0]], [y], perm=[0] + list(range(2, r)) + [1])]
        else:
            nodes.append(n)
    del model.graph.node[:]
    model.graph.node.extend(nodes)


TARGETS = {t: Target(t) for t in ("rs4", "rs5", "rs6", "caffe2", "tensorrt", "nhwc")}
PAIRS = {"+".join(p): Target(*p) for p in (("rs5", "rs6"), ("rs4", "nhwc"), ("rs6", "nhwc"), ("rs6", "tensorrt"))}


def cases(tier):
    thorough = tier == "thorough"
    out = {}
    targets = dict(TARGETS, **PAIRS) if thorough else TARGETS
    for src, c, j in c14.select("quick", 3 if thorough else 1, c14.SOURCES + ("c08",), sound=True):
        for name, target in (TARGETS if j else targets).items():
            for o in (9, 12, 15, 18) if thorough and not j else (18, 10 if name == "rs6" else 11) if src == "c05" or name in ("rs5", "rs6") else (18,):
                if o < 11 and "/div/" in c.id or o < 16 and "nd_dup" in c.id:
                    continue    # Equal compares integer parts, ScatterND replaces: see C01, C03
                cid = "%s/%s:%s/o%d" % (name, src, c.id[:c.id.rindex("/o")], o)
                if cid not in out:
                    out[cid] = Case(cid, dict(c.spec, opset=o, convert=target))
    return list(out.values())


def group_key(c):
    return (c14.group_key(Case(c.id.split("/", 1)[1], c.spec)), c.spec["convert"].__name__)
