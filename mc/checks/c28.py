"""C28: the flexbuffer reader returns the value that was written."""
import itertools
import struct

from flatbuffers import flexbuffers as fb

from mc.core import Case, Outcome, sig_of

ID = "C28"
LEVEL = "exploration"
TECHNIQUE = ("bounded-exhaustive enumeration of value trees and encodings (widths, typed, fixed-size and untyped vectors, maps, indirect values, shared keys and "
             "strings), written by the flatbuffers reference implementation and read by the code in /repo")
RULE = "every tree over the alphabet of leaves up to depth 2 with up to three children (thorough: depth 3), every encoding option; non-trivial and distinct = distinct buffers"
ASSUMPTIONS = ["flatbuffers.flexbuffers (Google's reference writer and reader) defines the format"]
GROUP = 4

INTS = [0, 1, -1, 127, 128, -128, -129, 255, 256, 32767, 32768, -32769, 65535, 65536, 2 ** 31 - 1, 2 ** 31, -2 ** 31 - 1, 2 ** 32 - 1, 2 ** 32, 2 ** 63 - 1, -2 ** 63]
UINTS = [0, 1, 255, 256, 65535, 65536, 2 ** 32 - 1, 2 ** 32, 2 ** 64 - 1]
FLOATS = [0.0, 1.5, -2.25, 0.1, 1e300, float("inf"), float("-inf"), float("nan"), 3.4e38, 1e-45]
STRINGS = ["", "a", "abc", "é", "日本", "x" * 254, "y" * 255, "z" * 256, "w" * 257, "é" * 128, "v" * 65535, "u" * 65536]
BLOBS = [b"", b"\x00", b"a\x00b", bytes(range(256)), b"q" * 255, b"r" * 70000]


class Leaf:
    def __init__(self, label, value, write):
        self.label, self.value, self.write = label, value, write

    def __repr__(self):
        return self.label


def short(v):
    r = repr(v)
    return r if len(r) < 14 else "%s..%d" % (r[:5], len(r))


def leaves():
    out = [Leaf("null", None, lambda b: b.Null()), Leaf("true", True, lambda b: b.Bool(True)), Leaf("false", False, lambda b: b.Bool(False))]
    for i in INTS:
        out.append(Leaf("i%d" % i, i, lambda b, i=i: b.Int(i)))
        out.append(Leaf("I%d" % i, i, lambda b, i=i: b.IndirectInt(i)))
        if -2 ** 31 <= i < 2 ** 31:
            out.append(Leaf("i%dw8" % i, i, lambda b, i=i: b.Int(i, 8)))
            out.append(Leaf("I%dw8" % i, i, lambda b, i=i: b.IndirectInt(i, 8)))
    for i in UINTS:
        out.append(Leaf("u%d" % i, i, lambda b, i=i: b.UInt(i)))
        out.append(Leaf("U%d" % i, i, lambda b, i=i: b.IndirectUInt(i)))
    for f in FLOATS:
        f32 = f if f != f or f in (float("inf"), float("-inf")) else struct.unpack("<f", struct.pack("<f", f))[0] if abs(f) < 3.5e38 else None
        out.append(Leaf("f%r" % f, f, lambda b, f=f: b.Float(f)))
        out.append(Leaf("F%r" % f, f, lambda b, f=f: b.IndirectFloat(f)))
        out.append(Leaf("f%rw8" % f, f, lambda b, f=f: b.Float(f, 8)))
        out.append(Leaf("F%rw8" % f, f, lambda b, f=f: b.IndirectFloat(f, 8)))
        if f32 is not None:
            out.append(Leaf("F%rw4" % f, f32, lambda b, f=f: b.IndirectFloat(f, 4)))
    for s in STRINGS:
        out.append(Leaf("s" + short(s), s, lambda b, s=s: b.String(s)))
        if len(s) < 300:
            out.append(Leaf("k" + short(s), s, lambda b, s=s: b.Key(s)))
    for d in BLOBS:
        out.append(Leaf("b" + short(d), d, lambda b, d=d: b.Blob(d)))
    return out


def few():
    """representatives of each type and width"""
    keep = ("null", "true", "false", "i0", "i-1", "i127", "i-129", "i65536", "i%d" % 2 ** 32, "I-129", "I7", "u255", "u%d" % (2 ** 64 - 1), "U65536", "f1.5", "f0.1", "F1e+300", "F1.5w4", "s''", "sé", "s'a'",
            "s" + short("z" * 256), "k'abc'", "b" + short(b""), "b" + short(b"a\x00b"), "b" + short(b"q" * 255))
    return [l for l in leaves() if l.label in keep]


def vec(items):
    def write(b):
        with b.Vector():
            for i in items:
                i.write(b)
    return Leaf("[%s]" % ",".join(map(repr, items)), [i.value for i in items], write)


def mapping(pairs):
    def write(b):
        with b.Map():
            for k, i in pairs:
                b.Key(k)
                i.write(b)
    return Leaf("{%s}" % ",".join("%s:%r" % (short(k), i) for k, i in pairs), {k: i.value for k, i in pairs}, write)


def typed(items):
    def write(b):
        with b.TypedVector():
            for i in items:
                i.write(b)
    return Leaf("<%s>" % ",".join(map(repr, items)), [i.value for i in items], write)


def fixed(values, kind):
    def write(b):
        b.FixedTypedVectorFromElements(values)
    return Leaf("(%s)" % ",".join(map(repr, values)), list(values), write)


def from_value(v):
    return Leaf("auto%s" % short(v), v, lambda b: b.Add(v))


def typed_leaf_groups():
    L = leaves()
    by = {"i": [l for l in L if l.label[0] == "i"], "u": [l for l in L if l.label[0] == "u"], "f": [l for l in L if l.label[0] == "f" and l.label not in ("false",)],
          "b": [l for l in L if l.label in ("true", "false")], "k": [l for l in L if l.label[0] == "k"]}
    return by


def same(a, b, strings):
    if isinstance(a, float) or isinstance(b, float):
        return type(a) is type(b) and (a == b or a != a and b != b)
    if isinstance(a, dict):
        return isinstance(b, dict) and list(sorted(b)) == sorted(k if strings else k.encode() for k in a) and all(same(v, b[k if strings else k.encode()], strings) for k, v in a.items())
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same(x, y, strings) for x, y in zip(a, b))
    if isinstance(a, str) and not strings:
        a = a.encode()
    return type(a) is type(b) and a == b


def run_case(case):
    from tf2onnx import flexbuffers
    evals = 0
    sigs = set()
    for tree in case.spec["trees"]():
        for share in case.spec["shares"]:
            bld = fb.Builder(share_strings=share & 1, share_keys=bool(share & 2))
            try:
                tree.write(bld)
                buf = bytes(bld.Finish())
                fb.Loads(buf)
            except Exception:  # pylint: disable=broad-except
                continue        # the reference implementation cannot write (or read) this combination
            sigs.add(sig_of(buf))
            for strings in (True, False):
                try:
                    got = flexbuffers.read_flexbuffer(buf, strings)
                except Exception as e:  # pylint: disable=broad-except
                    return Outcome("raises", "%r (share %d, decode_strings %s): %s: %s" % (tree, share, strings, type(e).__name__, e))
                if not same(tree.value, got, strings):
                    if same(fb.Loads(buf), tree.value, True) or tree.value != tree.value:
                        return Outcome("mismatch", "%r (share %d, decode_strings %s) is read as %r" % (tree, share, strings, str(got)[:300]))
                    return Outcome("mismatch", "%r (share %d, decode_strings %s) is read as %s, the reference reads %s" % (tree, share, strings, str(got)[:200], str(fb.Loads(buf))[:200]))
                evals += 1
    return Outcome("ok", sig=sig_of(sorted(sigs)), evals=evals)


def run_group(cases):
    return [run_case(c) for c in cases]


KEYS = ["", "a", "b", "zz", "é", "key" * 20]


def cases(tier):
    big = tier == "thorough"
    out = []

    def add(cid, trees, shares=(0, 1, 2, 3)):
        out.append(Case(cid, dict(trees=trees, shares=shares)))
    add("leaf", leaves)
    L, F = leaves(), few()
    assert len(F) > 20
    for k, a in enumerate(L):
        add("vec1/%r" % a, lambda a=a: [vec([a]), vec([a] * 2), vec([a] * 5), vec([a] * 300)] if len(str(a.value)) < 300 else [vec([a]), vec([a] * 3)])
        add("vec2/%r" % a, lambda a=a: [vec([a, b]) for b in (L if big else F)] + [vec([b, a]) for b in F])
        add("map1/%r" % a, lambda a=a: [mapping([(key, a)]) for key in KEYS] + [mapping([("k%d" % j, a) for j in range(n)]) for n in (2, 5, 40)])
    for a in F:
        add("vec3/%r" % a, lambda a=a: [vec([a, b, c]) for b in F for c in F], (0, 3))
        add("map2/%r" % a, lambda a=a: [mapping([(k1, a), (k2, b)]) for b in F for k1, k2 in itertools.permutations(KEYS, 2)], (0, 3))
        add("nest/%r" % a, lambda a=a: [t for b in F for t in (vec([vec([a]), b]), vec([vec([a, b]), vec([b])]), mapping([("m", vec([a, b])), ("n", b)]), vec([mapping([("m", a)]), mapping([("m", b), ("l", a)])]),
                                                              mapping([("m", mapping([("m", a)])), ("b", b)]), vec([vec([vec([a])]), b]), vec([typed([x for x in F if x.label in ("i0", "i127")]), a, b]))])
    add("empty", lambda: [vec([]), mapping([]), vec([vec([])]), vec([mapping([])]), mapping([("a", vec([])), ("b", mapping([]))])])
    for kind, group in typed_leaf_groups().items():
        for a in group:
            add("typed/%s/%r" % (kind, a), lambda a=a, group=group: [typed([a]), typed([a] * 2), typed([a] * 3), typed([a] * 4), typed([a] * 7), typed([a] * 300)] + [typed([a, b]) for b in group]
                + [vec([typed([a, b]), a]) for b in group] + [mapping([("t", typed([b, a, b]))]) for b in group])
    for n in (2, 3, 4):
        vals = [0, 1, -1, 128, -129, 65536, 2 ** 40]
        for first in vals:
            add("fixed/int%d/%d" % (n, first), lambda n=n, first=first: [t for rest in itertools.product(vals, repeat=n - 1) for v in [(first,) + rest]
                                                                        for t in (fixed(v, "i"), vec([fixed(v, "i"), few()[3]]), mapping([("a", fixed(v, "i"))]))], (0,))
        fl = [0.0, 1.5, 0.1, 1e300, -2.0]
        for first in fl:
            add("fixed/float%d/%r" % (n, first), lambda n=n, first=first: [t for rest in itertools.product(fl, repeat=n - 1) for v in [(first,) + rest]
                                                                          for t in (fixed(v, "f"), vec([fixed(v, "f"), few()[1]]))], (0,))
    autos = [None, True, 3, -300, 2.5, "s", b"b", [1, 2, 3], [1.5, 0.1], ["a", "b"], [], {}, {"a": 1, "b": [1, "x", {"c": None}]}, [[1], [2.5, "x"]], [True, False], {"z": {"y": {"x": [0.1]}}}, [b"x", "x"], [1, 2.0]]
    for k, a in enumerate(autos):
        add("auto/%d" % k, lambda a=a: [from_value(a), from_value([a]), from_value({"k": a}), from_value([a, a])] + [from_value([a, b]) for b in autos] + [from_value({"p": b, "a": a}) for b in autos])
    if big:
        for a, b in itertools.product(F, F):
            add("deep/%r/%r" % (a, b), lambda a=a, b=b: [t for c in F for t in (vec([vec([a, vec([b, c])]), c]), mapping([("x", vec([a, mapping([("y", b), ("x", c)])]))]), vec([mapping([("x", a)]), vec([b, mapping([("x", c)])])]),
                                                                             mapping([("x", mapping([("x", mapping([("x", a), ("y", b)]))])), ("y", c)]))], (0, 3))
    return out
