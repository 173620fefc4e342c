"""Make a planted bug: python3 tools_seed.py SPEC.py - SPEC defines id, property, needs, breaks, file, old, new (or edits=[(file, old, new)]), demo.

Writes seeded/<id>/ and tries the demo in a scratch copy without and with the patch (the stable tests are run apart).
"""
import json, os, shutil, subprocess, sys, tempfile

PRE = '''import os
os.environ.setdefault("TF_USE_LEGACY_KERAS", "1")
os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")
os.environ.setdefault("CUDA_VISIBLE_DEVICES", "")
import logging
import sys
import numpy as np
sys.path.insert(0, os.getcwd())
'''
TF = '''import onnx
import onnxruntime as ort
import tensorflow as tf
import tf2onnx
tf.get_logger().setLevel("ERROR")
logging.disable(logging.WARNING)


def compare(fn, specs, feeds, opset=18, rtol=1e-4, atol=1e-5, **kw):
    """Convert fn, run it on each feed with onnxruntime, and stop with status 1 if tensorflow says otherwise."""
    f = tf.function(fn, input_signature=[tf.TensorSpec(s, d, name="in_%d" % i) for i, (s, d) in enumerate(specs)])
    model, _ = tf2onnx.convert.from_function(f, f.input_signature, opset=opset, **kw)
    sess = ort.InferenceSession(model.SerializeToString(), providers=["CPUExecutionProvider"])
    for feed in feeds:
        feed = [np.asarray(x) for x in feed]
        want = tf.nest.flatten(f(*[tf.constant(x) for x in feed]))
        names = {i.name for i in sess.get_inputs()}
        got = sess.run(None, {"in_%d" % i: x for i, x in enumerate(feed) if "in_%d" % i in names})
        for w, g in zip(want, got):
            w = w.numpy()
            if w.dtype != g.dtype or w.shape != g.shape or not (np.array_equal(w, g) if w.dtype == object else np.allclose(w, g, rtol=rtol, atol=atol, equal_nan=True)):
                print("tensorflow\\n%s\\nonnx\\n%s" % (w, g))
                sys.exit(1)
    return model


'''
HERE = os.path.dirname(os.path.abspath(__file__))


def main(spec):
    ns = {}
    exec(open(spec).read(), ns)
    edits = ns.get("edits") or [(ns["file"], ns["old"], ns["new"])]
    d = os.path.join(HERE, "seeded", ns["id"])
    scratch = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    try:
        for f, old, new in edits:
            for side, text in (("a", None), ("b", 1)):
                p = os.path.join(scratch, side, f)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                t = open("/repo/" + f).read() if not os.path.exists(p) else open(p).read()
                if text:
                    assert t.count(old) == 1, (f, t.count(old), old)
                    t = t.replace(old, new)
                open(p, "w").write(t)
        patch = subprocess.run(["diff", "-ru", "a", "b"], cwd=scratch, capture_output=True, text=True).stdout
        patch = "\n".join(l for l in patch.splitlines() if not l.startswith("diff ")) + "\n"
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(patch)
        open(d + "/demo.py", "w").write(PRE + (TF if ns.get("tf", True) else "") + ns["demo"].strip("\n") + "\n")
        open(d + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": ns["property"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        copy = scratch + "/repo"
        shutil.copytree("/repo", copy, symlinks=True, ignore=shutil.ignore_patterns(".git", "tests", "__pycache__"))
        r0 = subprocess.run(["bash", d + "/demo.sh"], cwd=copy, capture_output=True, text=True)
        a = subprocess.run(["git", "apply", "--check", d + "/patch.diff"], cwd="/repo", capture_output=True, text=True)
        subprocess.run(["patch", "-s", "-p1", "-i", d + "/patch.diff"], cwd=copy, check=True)
        r1 = subprocess.run(["bash", d + "/demo.sh"], cwd=copy, capture_output=True, text=True)
        ok = r0.returncode == 0 and r1.returncode != 0 and a.returncode == 0
        print(ns["id"], "OK" if ok else "BAD", "clean rc", r0.returncode, "patched rc", r1.returncode, a.stderr[-300:])
        if not ok:
            print((r0.stdout + r0.stderr)[-1500:])
        print((r1.stdout + r1.stderr)[-500:])
    finally:
        shutil.rmtree(scratch)


for s in sys.argv[1:]:
    main(s)
