"""C07: matrix products, einsum equations, determinant/inverse and other linear algebra."""
import itertools

import numpy as np
import tensorflow as tf

from mc import tfcase
from mc.tfcase import Suite, dyn, mixed, shp

tfcase.define(globals(), "C07")
R = tf.raw_ops
F = "float32"
DIM = {"a": 2, "b": 3, "c": 2, "d": 4, "i": 2, "j": 3, "k": 4}


def canonical(eq):
    """letters renamed in order of first appearance"""
    m = {}
    out = ""
    for ch in eq:
        if ch.isalpha():
            m.setdefault(ch, "abcdefgh"[len(m)])
            ch = m[ch]
        out += ch
    return out


def alphas(m, n):
    return [mixed(q, F, 4) for q in ([], [1], [1, 1], [1, 1, 1], [m, 1], [n])]


def equations(thorough):
    """every einsum equation over at most three letters (four in thorough), at most two operands of rank <= 3"""
    letters = "abcd" if thorough else "abc"
    seen = set()
    ranks = (0, 1, 2, 3)
    for r1 in (1, 2, 3):
        for t1 in itertools.permutations(letters, r1):
            if canonical("".join(t1)) != "".join(t1):
                continue
            for k in range(r1 + 1):
                for o in itertools.permutations(t1, k):
                    eq = "%s->%s" % ("".join(t1), "".join(o))
                    if eq not in seen:
                        seen.add(eq)
                        yield eq
            for r2 in ranks[1:]:
                for t2 in itertools.permutations(letters, r2):
                    use = sorted(set(t1) | set(t2))
                    for k in range(len(use) + 1):
                        for o in itertools.permutations(use, k):
                            eq = "%s,%s->%s" % ("".join(t1), "".join(t2), "".join(o))
                            eq = canonical(eq)
                            if eq not in seen:
                                seen.add(eq)
                                yield eq


def cases(tier):
    s = Suite()
    thorough = tier == "thorough"
    # ---- matmul: every rank pair and transpose flag, static and run-time shapes
    for (m, k, n) in ((2, 3, 4), (1, 3, 1), (3, 1, 2), (2, 2, 2)):
        for ta, tb in itertools.product((False, True), repeat=2):
            sa, sb = ([k, m] if ta else [m, k]), ([n, k] if tb else [k, n])
            for dt in (F, "float64", "int32", "int64"):
                a, b = mixed(sa, dt), mixed(sb, dt, 3)
                f = lambda x, y, ta=ta, tb=tb: R.MatMul(a=x, b=y, transpose_a=ta, transpose_b=tb)
                for o in (18, 12, 8):
                    for q in ("st", "dy"):
                        s.add("matmul/%s_%s/%d%d/%s/%s" % (shp(sa), shp(sb), ta, tb, dt, q), f, [(sa if q == "st" else dyn(sa), dt), (sb if q == "st" else dyn(sb), dt)], [[a, b]], o)
            a, b = mixed(sa, F), mixed(sb, F, 3)
            s.add("matmulc/%s_%s/%d%d" % (shp(sa), shp(sb), ta, tb), lambda x, b=b, ta=ta, tb=tb: tf.matmul(x, tf.constant(b), ta, tb), [(dyn(sa), F)], [[a]], 18)
            s.add("matmulc0/%s_%s/%d%d" % (shp(sa), shp(sb), ta, tb), lambda y, a=a, ta=ta, tb=tb: tf.matmul(tf.constant(a), y, ta, tb), [(dyn(sb), F)], [[b]], 18)
            for nm, bias in (("1", mixed([n], F)), ("2", mixed([1, n], F)), ("s", np.float32(2)), ("mn", mixed([m, n], F)), ("m1", mixed([m, 1], F)), ("r3", mixed([1, 1, n], F))):
                for o in (18, 10):
                    for q in ("st", "dy"):
                        s.add("gemm/%s_%s/%d%d/%s/%s" % (shp(sa), shp(sb), ta, tb, nm, q), lambda x, y, c=bias, ta=ta, tb=tb: tf.matmul(x, y, ta, tb) + c,
                              [(sa if q == "st" else dyn(sa), F), (sb if q == "st" else dyn(sb), F)], [[a, b]], o)
                s.add("gemm2/%s_%s/%d%d/%s" % (shp(sa), shp(sb), ta, tb, nm), lambda x, y, c=bias, ta=ta, tb=tb: c + tf.matmul(x, y, ta, tb), [(sa, F), (sb, F)], [[a, b]], 18)
                s.add("gemmab/%s_%s/%d%d/%s" % (shp(sa), shp(sb), ta, tb, nm), lambda x, y, c=bias, ta=ta, tb=tb: 0.5 * tf.matmul(x, y, ta, tb) + 2.0 * tf.constant(c), [(sa, F), (sb, F)], [[a, b]], 18)
                s.add("gemmin/%s_%s/%d%d/%s" % (shp(sa), shp(sb), ta, tb, nm), lambda x, y, c, ta=ta, tb=tb: tf.matmul(x, y, ta, tb) * 3.0 + c * -2.0, [(sa, F), (sb, F), (list(np.shape(bias)), F)], [[a, b, bias]], 18)
            for al, be in itertools.product(alphas(m, n), repeat=2):
                s.add("gemmscale/%s_%s/%d%d/a%s/b%s" % (shp(sa), shp(sb), ta, tb, shp(al.shape), shp(be.shape)),
                      lambda x, y, c, ta=ta, tb=tb, al=al, be=be: tf.matmul(x, y, ta, tb) * al + be * c, [(sa, F), (sb, F), ([n], F)], [[a, b, mixed([n], F)]], 18)
            s.add("gemmsub/%s_%s/%d%d" % (shp(sa), shp(sb), ta, tb), lambda x, y, ta=ta, tb=tb: tf.matmul(x, y, ta, tb) - tf.constant(mixed([n], F)), [(sa, F), (sb, F)], [[a, b]], 18) if False else None
            s.add("gemmbias/%s_%s/%d%d" % (shp(sa), shp(sb), ta, tb), lambda x, y, c, ta=ta, tb=tb: tf.nn.bias_add(tf.matmul(x, y, ta, tb), c), [(dyn(sa), F), (dyn(sb), F), ([n], F)], [[a, b, mixed([n], F)]], 18)
            s.add("gemmshared/%s_%s/%d%d" % (shp(sa), shp(sb), ta, tb), lambda x, y, ta=ta, tb=tb, n=n: [q + mixed([n], F) + tf.reduce_sum(q) for q in [tf.matmul(x, y, ta, tb)]], [(sa, F), (sb, F)], [[a, b]], 18)
    for ba, bb in itertools.product(([], [2], [1], [2, 1], [3, 2], [1, 2]), repeat=2):
        if not ba and not bb:
            continue
        try:
            np.broadcast_shapes(tuple(ba), tuple(bb))
        except ValueError:
            continue
        for adj_x, adj_y in itertools.product((False, True), repeat=2):
            sa = ba + ([3, 2] if adj_x else [2, 3])
            sb = bb + ([4, 3] if adj_y else [3, 4])
            for dt in (F, "int32"):
                a, b = mixed(sa, dt), mixed(sb, dt, 3)
                for q in ("st", "dy"):
                    s.add("bmm/%s_%s/%d%d/%s/%s" % (shp(sa), shp(sb), adj_x, adj_y, dt, q),
                          lambda x, y, ax=adj_x, ay=adj_y: R.BatchMatMulV2(x=x, y=y, adj_x=ax, adj_y=ay),
                          [(sa if q == "st" else dyn(sa), dt), (sb if q == "st" else dyn(sb), dt)], [[a, b]], 18)
                    s.add("bmm/%s_%s/%d%d/%s/%s" % (shp(sa), shp(sb), adj_x, adj_y, dt, q),
                          lambda x, y, ax=adj_x, ay=adj_y: R.BatchMatMulV2(x=x, y=y, adj_x=ax, adj_y=ay),
                          [(sa if q == "st" else dyn(sa), dt), (sb if q == "st" else dyn(sb), dt)], [[a, b]], 10)
            if len(ba) == len(bb) and ba == bb:
                s.add("bmm1/%s_%s/%d%d" % (shp(sa), shp(sb), adj_x, adj_y), lambda x, y, ax=adj_x, ay=adj_y: R.BatchMatMul(x=x, y=y, adj_x=ax, adj_y=ay), [(sa, F), (sb, F)], [[a.astype(F), b.astype(F)]], 18)
    s.add("bmm3/int8", lambda x, y: R.BatchMatMulV3(x=x, y=y, Tout=tf.int32), [([2, 3], "int8"), ([3, 2], "int8")], [[mixed([2, 3], "int8"), mixed([3, 2], "int8", 2)]], 18)
    for op, ra, rb, ax in itertools.product(("tensordot",), (1, 2, 3), (1, 2, 3), (0, 1, 2)):
        if ax > min(ra, rb):
            continue
        sa, sb = [2, 2, 2][:ra], [2, 2, 2][:rb]
        s.add("tensordot/%d_%d_%d" % (ra, rb, ax), lambda x, y, ax=ax: tf.tensordot(x, y, ax), [(sa, F), (sb, F)], [[mixed(sa, F), mixed(sb, F, 3)]], 18)
        s.add("tensordot/%d_%d_%d/dyn" % (ra, rb, ax), lambda x, y, ax=ax: tf.tensordot(x, y, ax), [(dyn(sa), F), (dyn(sb), F)], [[mixed(sa, F), mixed(sb, F, 3)]], 18)
    # ---- einsum
    for eq in equations(thorough):
        lhs, rhs = eq.split("->")
        ops = lhs.split(",")
        shapes = [[DIM[c] for c in t] for t in ops]
        feeds = [[mixed(q, F, 2 * i) for i, q in enumerate(shapes)]]
        f = lambda *xs, eq=eq: R.Einsum(inputs=list(xs), equation=eq)
        nm = "einsum/%d/%s" % (len(ops), eq.replace(",", "_").replace("->", "="))
        if eq in ("abc->ca", "abc->cb"):    # onnxruntime's own Einsum kernel fails on these
            continue
        s.add(nm, f, [(q, F) for q in shapes], feeds, 12)
        if len(eq) < 8 or thorough:
            s.add(nm + "/dyn", f, [(dyn(q), F) for q in shapes], feeds, 18)
    for eq, shapes in (("ab,bc,cd->ad", ([2, 3], [3, 2], [2, 4])), ("ab,bc,ca->", ([2, 3], [3, 2], [2, 2])), ("a,b,c->abc", ([2], [3], [2])),
                       ("ab,ac,ad->bcd", ([2, 3], [2, 2], [2, 4])), ("abc,abd,ad->ac", ([2, 3, 2], [2, 3, 4], [2, 4])),
                       ("...ab,...bc->...ac", ([2, 2, 3], [2, 3, 2])), ("...a->...", ([2, 3],)), ("ab...->ba...", ([2, 3, 2],)), ("...ij,jk->...ik", ([2, 2, 3], [3, 4])),
                       ("a...b->...", ([2, 3, 2],)), ("aa->a", ([3, 3],)), ("aa->", ([3, 3],)), ("aab->b", ([2, 2, 3],)), ("ab,ab->", ([2, 3], [2, 3])),
                       ("bhwi,bihk->bhwk", ([1, 2, 3, 2], [1, 2, 2, 3])), ("bsnd,btnd->bnst", ([2, 2, 2, 3], [2, 3, 2, 3])), ("bnst,btnd->bsnd", ([2, 2, 2, 3], [2, 3, 2, 2])),
                       ("abc,cde->abde", ([2, 3, 2], [2, 2, 3])), ("abcd,cde->abe", ([2, 3, 2, 2], [2, 2, 3])), ("bfd,dnh->bfnh", ([2, 2, 3], [3, 2, 2])),
                       ("bfnh,nhd->bfd", ([2, 2, 3, 2], [3, 2, 4])), ("acbe,aecd->abcd", ([2, 3, 2, 4], [2, 4, 3, 2])), ("aecd,abcd->acbe", ([2, 4, 3, 2], [2, 2, 3, 2])),
                       ("abde,c->abcde", ([1, 2, 2, 2], [3])), ("abcd,abce->abde" if False else "abcd,adce->abce", ([2, 2, 2, 3], [2, 3, 2, 2])), ("ij,kj->ik", ([2, 3], [4, 3]))):
        feeds = [[mixed(q, F, 2 * i) for i, q in enumerate(shapes)]]
        f = lambda *xs, eq=eq: R.Einsum(inputs=list(xs), equation=eq)
        nm = "einsumx/" + eq.replace(",", "_").replace("->", "=")
        for o in (18, 12, 10):
            s.add(nm, f, [(q, F) for q in shapes], feeds, o)
            s.add(nm + "/dyn", f, [(dyn(q), F) for q in shapes], feeds, o)
        for dt in ("int32", "float64", "int64"):
            s.add(nm + "/" + dt, f, [(q, dt) for q in shapes], [[mixed(q, dt, 2 * i) for i, q in enumerate(shapes)]], 12)
        s.add(nm + "/const", lambda x, *r, eq=eq, cs=feeds[0][1:]: R.Einsum(inputs=[x] + [tf.constant(c) for c in cs], equation=eq), [(shapes[0], F)], [feeds[0][:1]], 12)
        s.add(nm + "/twice", lambda *xs, eq=eq: [R.Einsum(inputs=list(xs), equation=eq), R.Einsum(inputs=[q * 2 for q in xs], equation=eq)], [(q, F) for q in shapes], feeds, 12)
    # ---- determinant, inverse, permutation, misc
    for n in (1, 2, 3):
        a = mixed([n, n], F) + np.eye(n, dtype=F) * 9
        bt = np.stack([a, a.T + 1])
        for o in (18, 12):
            s.add("det/%d" % n, lambda x: tf.linalg.det(x), [([n, n], F)], [[a]], o)
            s.add("det/b%d" % n, lambda x: tf.linalg.det(x), [([None, n, n], F)], [[bt]], o)
            s.add("trace/%d" % n, lambda x: tf.linalg.trace(x), [([None, n, n], F)], [[bt]], o)
            s.add("eye/%d" % n, lambda x, n=n: tf.eye(n) + x, [([n, n], F)], [[a]], o)
            s.add("eyert/%d" % n, lambda k: tf.eye(k), [([], "int32")], [[np.int32(n)]], o)
            s.add("norm/%d" % n, lambda x: [tf.norm(x), tf.norm(x, axis=-1), tf.norm(x, ord=1, axis=0)], [([None, n], F)], [[a]], o)
            s.add("matvec/%d" % n, lambda x: tf.linalg.matvec(x, x[0]), [([n, n], F)], [[a]], o)
            s.add("sqdist/%d" % n, lambda x: tf.reduce_sum(tf.math.squared_difference(x[:, None], x[None]), -1), [([None, n], F)], [[a]], o)
    for p in itertools.chain(*[itertools.permutations(range(n)) for n in (1, 2, 3, 4)]):
        for o in (18, 11):
            s.add("invperm/%s" % "".join(map(str, p)), lambda x: tf.math.invert_permutation(x), [([None], "int32")], [[np.array(p, np.int32)]], o)
    return s.out
