"""Writes TensorFlow graphs as tfjs graph models (model.json and weight shards)."""
import base64
import gzip
import json
import os
import struct

import numpy as np
import tensorflow as tf
from google.protobuf.json_format import MessageToDict


def consts(nodes, prefix=""):
    """takes the values out of the Const nodes -> [(name, array, dtype enum)]"""
    out = []
    for n in nodes:
        if n.op == "Const":
            arr = tf.make_ndarray(n.attr["value"].tensor)
            if prefix and not n.name.startswith(prefix):
                old, n.name = n.name, prefix + n.name
                for m in nodes:
                    for k, i in enumerate(m.input):
                        if i.split(":")[0] == old:
                            m.input[k] = prefix + i
            t = n.attr["value"].tensor
            dtype, shape = t.dtype, t.tensor_shape
            t2 = type(t)()
            t2.dtype = dtype
            t2.tensor_shape.CopyFrom(shape)
            n.attr["value"].tensor.CopyFrom(t2)
            out.append((n.name, arr))
    return out


def quantized(arr, how):
    """-> (bytes, description) or None when `how` cannot hold the values exactly"""
    if how == "float16":
        q = arr.astype(np.float16)
        return (q, {"dtype": "float16"}) if arr.dtype == np.float32 and np.array_equal(q.astype(np.float32), arr) else None
    if arr.dtype not in (np.float32, np.int32) or not arr.size:
        return None
    kind = np.dtype(how)
    lo, hi = float(arr.min()), float(arr.max())
    if arr.dtype == np.int32:
        scale = (hi - lo) / np.iinfo(kind).max or 1.0
    else:
        scale = next((s for s in (2.0 ** -k for k in range(0, 20)) if np.all((arr - lo) / s == np.round((arr - lo) / s))), None)
        if scale is None or (hi - lo) / scale > np.iinfo(kind).max:
            return None
    q = np.round((arr.astype(np.float64) - lo) / scale)
    back = np.round(q * scale + lo)
    if arr.dtype == np.int32 and not np.array_equal(back.astype(np.int32), arr):
        return None
    return q.astype(kind), {"dtype": how, "scale": scale, "min": lo}


def weight(name, arr, quant):
    if arr.dtype == object or arr.dtype.kind in "SU":
        data = b""
        for s in arr.reshape(-1):
            s = s if isinstance(s, bytes) else str(s).encode()
            data += struct.pack("<I", len(s)) + s
        return {"name": name, "shape": list(arr.shape), "dtype": "string"}, data
    if arr.dtype.kind in "iu" and arr.dtype != np.int32:
        if arr.size and (arr.max() > 2 ** 31 - 1 or arr.min() < -2 ** 31):
            raise ValueError("tfjs has no int64")
        arr = arr.astype(np.int32)
    elif arr.dtype in (np.float64, np.float16):
        if not np.array_equal(arr.astype(np.float32).astype(arr.dtype), arr, equal_nan=True):
            raise ValueError("tfjs has no float64")
        arr = arr.astype(np.float32)
    d = {"name": name, "shape": list(arr.shape), "dtype": arr.dtype.name}
    q = quantized(arr, quant) if quant else None
    if q is not None:
        d["quantization"] = q[1]
        return d, q[0].tobytes()
    return d, arr.tobytes()


def in_order(nodes):
    """the exporter writes nodes after those they read (only NextIteration may be read before it is written)"""
    by_name = {n.name: n for n in nodes}
    done, out = set(), []

    def visit(n):
        stack = [(n, iter(n.input))]
        done.add(n.name)
        while stack:
            m, it = stack[-1]
            for i in it:
                q = by_name.get(i.lstrip("^").split(":")[0])
                if q is not None and q.name not in done and q.op != "NextIteration":
                    done.add(q.name)
                    stack.append((q, iter(q.input)))
                    break
            else:
                out.append(m)
                stack.pop()
    for n in nodes:
        if n.name not in done and n.op != "NextIteration":
            visit(n)
    return out + [n for n in nodes if n.op == "NextIteration"]


def renamed(model, names):
    """model with its tensors renamed"""
    def walk(g):
        for n in g.node:
            for k, v in enumerate(n.input):
                n.input[k] = names.get(v, v)
            for k, v in enumerate(n.output):
                n.output[k] = names.get(v, v)
            for a in n.attribute:
                if a.HasField("g"):
                    walk(a.g)
        for v in list(g.input) + list(g.output) + list(g.initializer):
            v.name = names.get(v.name, v.name)
    walk(model.graph)
    return model


def write(gd, folder, outs=(), ins=(), quant=None, shards=1, groups=1, backwards=False, zipped=False, bytes_as_ints=False, ports="plain", signature=False, fmt="graph-model", edit=None, bad=None):
    """-> path of the model.json"""
    gd2 = tf.compat.v1.graph_util.extract_sub_graph(gd, [n.split(":")[0] for n in list(outs) + list(ins)])
    nodes = in_order(gd2.node)
    del gd2.node[:]
    gd2.node.extend(nodes)
    ws = consts(gd2.node)
    for f in gd2.library.function:
        ws += consts(f.node_def, f.signature.name + "/")
    topo = MessageToDict(gd2)
    if fmt:
        topo["format"] = fmt

    def fix(node, main=True):
        for a in node.get("attr", {}).values():
            if "s" in a and bytes_as_ints:
                a["s"] = list(base64.b64decode(a["s"]))
            if "s" in a.get("list", {}) and bytes_as_ints:
                a["list"]["s"] = [list(base64.b64decode(x)) for x in a["list"]["s"]]
        if main and ports == "zero":
            node["input"] = [i if i.startswith("^") or ":" in i else i + ":0" for i in node.get("input", [])]
    for n in topo["node"]:
        fix(n)
    for f in topo.get("library", {}).get("function", []):
        for n in f.get("nodeDef", []):
            fix(n, False)
    if edit:
        edit(topo)
    # consecutive weights in groups, each group in shards
    parts = [ws[len(ws) * k // groups:len(ws) * (k + 1) // groups] for k in range(groups)]
    manifest = []
    for q, part in enumerate(parts):
        entries, blobs = [], b""
        for name, arr in part:
            e, b = weight(name, arr, quant)
            entries.append(e)
            blobs += b
        if bad == "long":
            blobs += b"0000"
        paths = []
        step = -(-len(blobs) // shards) if blobs else 1
        for k in range(shards):
            p = "group%d-shard%dof%d.bin" % (q + 1, k + 1, shards)
            data = blobs[k * step:(k + 1) * step] if k < shards - 1 else blobs[k * step:]
            with open(os.path.join(folder, p), "wb") as fd:
                fd.write(gzip.compress(data) if zipped else data)
            paths.append(p)
        manifest.append({"paths": paths, "weights": entries})
    if bad == "layers":
        del topo["format"]
        topo["keras_version"] = "2.16"
    if backwards:
        manifest = manifest[::-1]
    model = {"format": "graph-model", "generatedBy": "mc", "modelTopology": topo, "weightsManifest": manifest}
    if signature:
        model["signature"] = {"inputs": {"in%d" % k: {"name": n} for k, n in enumerate(ins)}, "outputs": {"out%d" % k: {"name": n} for k, n in enumerate(outs)}}
    path = os.path.join(folder, "model.json")
    data = json.dumps(model).encode()
    with open(path, "wb") as fd:
        fd.write(gzip.compress(data) if zipped else data)
    return path
