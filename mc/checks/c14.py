"""C14: for every opset the converter accepts, the model declares that opset, uses only what it defines, and computes the same."""
import importlib

import onnx
import onnx.shape_inference

from tf2onnx import constants
from mc import tfcase
from mc.core import Case, Outcome, load_known

tfcase.define(globals(), "C14", rule="one program per (operator family of C01-C07, C10, C12; selection of 2 quick, 6 thorough, evenly spread) x every opset 13..18: converted, checked against the "
              "operator schemas of the declared opset with strict type inference, run and compared with TensorFlow", group=10)
SOURCES = ("c01", "c02", "c03", "c04", "c05", "c06", "c07", "c10", "c12")
PER_FAMILY = {"quick": 2, "thorough": 6}
OPSETS = list(range(13, 19))


def conforms(opset, model):
    """-> text or None"""
    imports = {}
    for o in model.opset_import:
        dom = o.domain if o.domain != "ai.onnx" else ""
        if dom in imports:
            return "domain %r is imported twice" % dom
        imports[dom] = o.version
    if imports.get("") != opset:
        return "opset %s was asked for, the model declares %s" % (opset, imports.get(""))
    want_ir = constants.OPSET_TO_IR_VERSION.get(opset)
    if want_ir and model.ir_version > max(want_ir, 3) and model.ir_version > onnx.IR_VERSION:
        return "ir version %d" % model.ir_version
    errs = []

    def walk(g, depth):
        for n in g.node:
            dom = n.domain if n.domain != "ai.onnx" else ""
            if dom not in imports:
                errs.append("%s uses domain %r, which the model does not import" % (n.op_type, dom))
                continue
            if dom == "":
                try:
                    s = onnx.defs.get_schema(n.op_type, opset, "")
                except Exception:  # pylint: disable=broad-except
                    errs.append("%s is not defined in opset %d" % (n.op_type, opset))
                    continue
                if s.deprecated:
                    errs.append("%s is deprecated in opset %d" % (n.op_type, opset))
                for a in n.attribute:
                    if a.name not in s.attributes:
                        errs.append("%s-%d has no attribute %s" % (n.op_type, s.since_version, a.name))
                    elif int(s.attributes[a.name].type.value if hasattr(s.attributes[a.name].type, "value") else s.attributes[a.name].type) != a.type:
                        errs.append("%s-%d: attribute %s has the wrong type" % (n.op_type, s.since_version, a.name))
                if not s.min_input <= len(n.input) <= s.max_input or not s.min_output <= len(n.output) <= s.max_output:
                    errs.append("%s-%d has %d inputs, %d outputs" % (n.op_type, s.since_version, len(n.input), len(n.output)))
            for a in n.attribute:
                if a.type == onnx.AttributeProto.GRAPH:
                    walk(a.g, depth + 1)
    walk(model.graph, 0)
    if errs:
        return "; ".join(sorted(set(errs)))[:600]
    try:
        onnx.shape_inference.infer_shapes(model, check_type=True, strict_mode=True)
    except Exception as e:  # pylint: disable=broad-except
        return "type inference: %s" % str(e)[:500]
    return None


class Post:
    def __init__(self, opset):
        self.opset = opset

    def __call__(self, model):
        d = conforms(self.opset, model)
        return Outcome("schema", d) if d else None


POST = {o: Post(o) for o in OPSETS}


OWN = ("area/", "bnout/")   # families of C06 that its own findings and baseline cover whole


def group_key(c):
    return c.id if c.id.startswith(("c04:setdiag", "c04:diag3", "c12:mel")) else tfcase.group_key(c)


def select(tier, k, sources=SOURCES, sound=False):
    """sound: leave out programs that are known findings of their own check"""
    for src in sources:
        fam = {}
        bad = {cid[:cid.rindex("/o")] for cid, _ in load_known(src.upper())} if sound else ()
        for c in importlib.import_module("mc.checks." + src).cases(tier):
            if isinstance(c.spec, dict) and "build" in c.spec and c.spec.get("opset") == tfcase.DEFAULT_OPSET and not c.spec["convert"] and not c.spec["post"] and not c.id.startswith(OWN) and not (sound and c.id[:c.id.rindex("/o")] in bad):
                parts = c.id.split("/")
                fam.setdefault("/".join(parts[:2]) if src in ("c01", "c02") else parts[0], []).append(c)
        for cs in fam.values():
            n = len(cs)
            for j, c in enumerate(cs if n <= k else [cs[(2 * i + 1) * n // (2 * k)] for i in range(k)]):
                yield src, c, j


def cases(tier):
    out = {}
    for t in ("quick", "thorough") if tier == "thorough" else ("quick",):
        for src, c, j in select(t, PER_FAMILY[t]):
            for o in OPSETS if tier == "thorough" else [15, 17] if j else [14, 16, 18]:
                cid = "%s:%s/o%d" % (src, c.id[:c.id.rindex("/o")], o)
                if cid not in out:
                    out[cid] = Case(cid, dict(c.spec, opset=o, post=POST[o]))
    return list(out.values())
