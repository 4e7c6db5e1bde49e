"""128-bit tensors vs Python integers modulo 2^128."""
import numpy as np
import tensorflow as tf
from hypothesis import strategies as st

from .. import gen
from ..core import Family, Violation, count
from ..env import tfe  # noqa: F401
from tf_encrypted.operations import tf_i128
from tf_encrypted.tensor import factories, int128factory as F

B = 128


def raw(a):
    """Two little-endian 64-bit limbs per element (independent encoding)."""
    a = np.asarray(a, dtype=object)
    out = np.zeros(a.shape + (2,), dtype=np.int64)
    flat, src = out.reshape(-1, 2), a.reshape(-1)
    for i, v in enumerate(src):
        u = int(v) % (1 << 128)
        lo, hi = u & (2**64 - 1), u >> 64
        flat[i] = [lo - 2**64 if lo >= 2**63 else lo, hi - 2**64 if hi >= 2**63 else hi]
    return out


def unraw(r):
    r = np.asarray(r)
    lo, hi = gen.obj(r[..., 0]), gen.obj(r[..., 1])
    return gen.wrap(np.asarray(lo % 2**64 + (hi % 2**64) * 2**64, dtype=object), 128)


def mk(a):
    return F.tensor(tf.constant(raw(a)), encode=False)


def expect(t, want, what):
    got = unraw(t.value)
    want = gen.wrap(want, 128)
    count("elements", want.size)
    if not gen.same(got, want):
        raise Violation("%s: %s" % (what, gen.first_diff(got, want)))


OPS = ["add", "sub", "mul", "add_i", "radd_i", "sub_i", "rsub_i", "mul_i", "rmul_i", "neg",
       "abs", "shl", "shr", "lshr", "matmul", "matmul", "reduce_sum", "reduce_sum", "equal", "xor", "and", "or",
       "invert", "encode", "decode", "decode_s", "stack", "concat", "zeros", "where", "tile",
       "scatter", "transpose", "slice", "gather", "split", "reverse", "reshape", "expand",
       "truncate", "cast", "variable", "conv2d", "patches", "big",
       "shiftt", "bits", "widen"]


@st.composite
def case(draw):
    a, b = draw(gen.bcast_pair(4, 3))
    return {"op": draw(st.sampled_from(OPS)), "x": draw(gen.ints_desc(a)), "y": draw(gen.ints_desc(b)),
            "k": draw(st.integers(0, 127)), "i": draw(st.integers(-10**6, 10**6)),
            "f": draw(st.booleans()), "g": draw(st.booleans())}


def check(c):
    op, k, i = c["op"], c["k"], c["i"]
    x = gen.int_array(c["x"], B)
    y = gen.int_array(c["y"], B)
    z = gen.int_array(dict(c["y"], shape=c["x"]["shape"]), B)
    X, Y, Z = mk(x), mk(y), mk(z)
    nd = x.ndim
    ax = k % nd if nd else None
    if nd and k & 8:
        ax -= nd
    rs = np.random.RandomState(k)
    if tuple(X.shape) != x.shape:
        raise Violation("shape of a 128-bit tensor")
    if op in ("add", "sub", "mul"):
        w, g = {"add": lambda: (x + y, X + Y), "sub": lambda: (x - y, X - Y),
                "mul": lambda: (x * y, X * Y)}[op]()
        expect(g, w, op)
    elif op.endswith("_i"):
        w, g = {"add_i": lambda: (x + i, X + i), "sub_i": lambda: (x - i, X - i),
                "mul_i": lambda: (x * i, X * i), "radd_i": lambda: (i + x, i + X),
                "rsub_i": lambda: (i - x, i - X), "rmul_i": lambda: (i * x, i * X)}[op]()
        expect(g, w, op)
    elif op == "neg":
        expect(-X, -x, op)
        expect(X.negative(), -x, op)
    elif op == "abs":
        g = unraw(tf_i128.i128_abs(X.value))
        if not gen.same(g, gen.wrap(abs(x), 128)):
            raise Violation("abs: " + gen.first_diff(g, abs(x)))
    elif op == "shiftt":  # a shift amount per element, overlong amounts included
        am = rs.choice([0, 1, 2, 63, 64, 65, 126, 127, 128, 129, 191, 200, 1000], size=y.shape)
        am = np.asarray(am, dtype=np.int64)
        sh = tf.constant(am if c["g"] or am.size == 0 else am.reshape(-1)[0], dtype=tf.int64)
        bs = np.broadcast_shapes(x.shape, tuple(sh.shape))
        xs, ss = np.broadcast_to(x, bs), np.broadcast_to(gen.obj(sh.numpy()), bs)
        f = [lambda a, b: a * 2**b, lambda a, b: a >> b, lambda a, b: (a % 2**128) >> b]
        g = [X.lshift, X.right_shift, X.logical_rshift][k % 3](sh)
        w = np.vectorize(f[k % 3], otypes=[object])(xs, ss)
        expect(g, w, op + str(k % 3))
    elif op == "bits":
        nb = None if c["f"] else 1 + k
        g = np.asarray(X.bits(factories[tf.bool], nb).value)
        js = np.arange(nb or 128).astype(object)
        w = np.asarray((x[..., None] >> js) & 1, dtype=bool)
        if g.shape != w.shape or not np.array_equal(g, w):
            raise Violation("bits(%s): %s" % (nb, gen.first_diff(g, w)))
    elif op == "widen":
        for n in (8, 16, 32, 64):
            v = gen.wrap(x, n)
            t = factories[n].tensor(tf.constant(v.astype("int%d" % n)))
            expect(t.cast(F), v, "cast %d->128" % n)
            expect(F.tensor(tf.constant(v.astype("int%d" % n))), v, "encode int%d tensor" % n)
    elif op == "shl":
        expect(X << k, x * 2**k, op)
    elif op == "shr":
        expect(X >> k, x // 2**k, op)
    elif op == "lshr":
        expect(X.logical_rshift(k), np.asarray((x % 2**128) // 2**k, dtype=object), op)
    elif op == "truncate":
        expect(X.truncate(k), x // 2**k, op)
    elif op == "matmul":
        n, m, p = (int(v) for v in rs.randint(1, 7, size=3))
        a = gen.int_array(dict(c["x"], shape=[n, m]), B)
        b = gen.int_array(dict(c["y"], shape=[m, p]), B)
        expect(mk(a).matmul(mk(b)), a.dot(b), op)
    elif op == "reduce_sum":
        if nd == 0:
            return False
        if c["f"]:
            a, npa = None, None
        elif k % 3 == 0:
            sub = [j for j in range(nd) if (k >> (j + 2)) & 1] or [ax]
            a, npa = sub, tuple(sub)
        elif k % 3 == 1:
            a, npa = -1, -1
        else:
            a, npa = ax, ax
        expect(X.reduce_sum(a, c["g"]), np.asarray(np.sum(x, axis=npa, keepdims=c["g"]), dtype=object),
               "reduce_sum axis=%s" % (a,))
    elif op == "equal":
        m = np.asarray(rs.rand(*x.shape) < .5).reshape(x.shape)
        d = [1, -1, 2**64, 2**63, 2**127, -2**64][k % 6]  # differ in one limb only
        w = gen.wrap(np.where(m, x, x + d).astype(object), 128)
        g = np.asarray(X.equal(mk(w)))
        if g.shape != x.shape or not np.array_equal(g, m):
            raise Violation("equal: %s" % gen.first_diff(g, m))
    elif op in ("xor", "and", "or"):
        fn = {"xor": lambda a, b: a ^ b, "and": lambda a, b: a & b, "or": lambda a, b: a | b}[op]
        g = {"xor": lambda: X ^ Z, "and": lambda: X & Z, "or": lambda: X | Z}[op]()
        expect(g, np.frompyfunc(fn, 2, 1)(x, z), op)
    elif op == "invert":
        expect(~X, -x - 1, op)
    elif op == "encode":
        expect(F.tensor(x), x, "encode objects")
        expect(F.constant(x), x, "constant")
        s = gen.wrap(x, 50)
        expect(F.tensor(s.astype(np.int64)), s, "encode int64")
        expect(F.tensor(tf.constant(s.astype(np.float64))), s, "encode float tensor")
        expect(F.tensor(tf.constant(s.astype(np.int64))), s, "encode int tensor")
        q = 2**(k % 40)
        g = unraw(tf_i128.to_i128(tf.constant(s.astype(np.float64)), q))
        if not gen.same(g, s * q):
            raise Violation("to_i128 with scale %d: %s" % (q, gen.first_diff(g, s * q)))
    elif op == "decode":
        s = gen.wrap(x, 53)
        g = mk(s).to_native().numpy()
        if not np.array_equal(np.asarray(g, dtype=np.float64), s.astype(np.float64)):
            raise Violation("decode of %s" % s.tolist())
    elif op == "decode_s":
        q = 2**(k % 60)
        g = np.asarray(tf_i128.from_i128(X.value, q), dtype=np.float64)
        w = np.asarray(np.vectorize(lambda v: float(int(v)) / q, otypes=[np.float64])(x))
        if g.shape != x.shape or np.any(abs(g - w) > 1e-14 * abs(w)):
            raise Violation("from_i128 with scale %d: %s" % (q, gen.first_diff(g, w)))
    elif op == "stack":
        a = k % (nd + 1) - (nd + 1 if k & 8 else 0)
        expect(F.stack([X, Z], axis=a), np.stack([x, z], axis=a), op)
    elif op == "concat":
        if nd == 0:
            return False
        expect(F.concat([X, Z], axis=ax), np.concatenate([x, z], axis=ax), op)
        expect(F.concat([X, Z], axis=-1), np.concatenate([x, z], axis=-1), "concat -1")
    elif op == "zeros":
        expect(F.zeros(list(x.shape)), gen.obj(np.zeros(x.shape)), op)
        expect(F.ones(list(x.shape)), gen.obj(np.ones(x.shape)), "ones")
        expect(F.ones_like(X) * X + F.zeros_like(X), x, "1*x+0")
        if nd:
            pd = [[int(v) for v in rs.randint(0, 3, size=2)] for _ in range(nd)]
            expect(F.pad(X, pd), np.pad(x, pd, constant_values=0), "pad")
    elif op == "where":
        m = np.asarray(rs.rand(*x.shape) < .5).reshape(x.shape)
        expect(F.where(tf.constant(m), X, Z), np.where(m, x, z), op)
    elif op == "tile":
        if nd == 0:
            return False
        m = [int(v) for v in rs.randint(1, 3, size=nd)]
        expect(F.tile(X, m if c["f"] else tuple(m)), np.tile(x, m), op)
    elif op == "scatter":
        v = x.reshape(-1)
        idx = rs.permutation(len(v) + 2)[: len(v)]
        w = gen.obj(np.zeros(len(v) + 2))
        w[idx] = v
        expect(mk(v).scatter_nd(tf.constant(idx[:, None]), [len(v) + 2]), w, op)
        expect(F.scatter_nd(tf.constant(idx[:, None]), mk(v), [len(v) + 2]), w, op)
    elif op == "transpose":
        p = [int(v) for v in rs.permutation(nd)]
        expect(X.transpose(p), np.transpose(x, p), op)
        expect(X.transpose(None), np.transpose(x), "transpose()")
    elif op == "slice":
        if nd == 0:
            return False
        s = 1 + k % 2
        expect(X[::s], x[::s], op)
        expect(X[..., ::s], x[..., ::s], "slice of the last axis")
        expect(X[..., -1], x[..., -1], "last element")
        b = [int(rs.randint(0, d)) for d in x.shape]
        e = [int(rs.randint(q + 1, d + 1)) for q, d in zip(b, x.shape)]
        expect(X.strided_slice((b, e, [s] * nd), {}), x[tuple(slice(q, r, s) for q, r in zip(b, e))],
               "strided_slice")
    elif op == "gather":
        if nd == 0:
            return False
        idx = [int(v) for v in rs.randint(0, x.shape[ax], size=3)]
        expect(X.gather(idx, axis=ax), np.take(x, idx, axis=ax), op)
        expect(X.gather([0], axis=-1), np.take(x, [0], axis=-1), "gather -1")
    elif op == "split":
        if nd == 0 or x.shape[ax] < 2:
            return False
        for g, w in zip(X.split([1, x.shape[ax] - 1], axis=ax), np.split(x, [1], axis=ax)):
            expect(g, w, op)
    elif op == "reverse":
        if nd == 0:
            return False
        expect(X.reverse([ax]), np.flip(x, ax), op)
        expect(X.reverse([-1]), np.flip(x, -1), "reverse -1")
    elif op == "reshape":
        expect(X.reshape([-1]), x.reshape(-1), op)
        expect(X.reshape(tuple([1] + list(x.shape))), x[None], op)
    elif op == "expand":
        a = k % (nd + 1)
        e = X.expand_dims(a)
        expect(e, np.expand_dims(x, a), op)
        expect(e.squeeze([a]), x, "squeeze")
        expect(X.expand_dims(-1), np.expand_dims(x, -1), "expand -1")
    elif op == "cast":
        for n in (8, 32, 64):
            g = gen.obj(X.cast(factories[n]).to_native().numpy())
            if not gen.same(g, gen.wrap(x, n)):
                raise Violation("cast to %d: %s" % (n, gen.first_diff(g, gen.wrap(x, n))))
        b = np.asarray(X.cast(factories[tf.bool]).to_native())
        if not np.array_equal(b, np.asarray(x != 0, dtype=bool)):
            raise Violation("cast to bool")
    elif op == "variable":
        v = F.variable(X)
        expect(v.read_value(), x, "variable")
        v.assign(Z)
        expect(v.read_value(), z, "assign")
    elif op in ("conv2d", "patches"):
        from .C17 import pad_of, ref_patches
        n, ch, o = (int(v) for v in rs.randint(1, 3, size=3))
        h, w = (int(v) for v in rs.randint(3, 6, size=2))
        kh, kw, sh, sw = (int(v) for v in rs.randint(1, 4, size=4))
        sh, sw = min(sh, 2), min(sw, 2)
        pad = "SAME" if c["f"] else "VALID"
        a = gen.int_array(dict(c["x"], shape=[n, ch, h, w]), B)
        P = ref_patches(a, kh, kw, sh, sw, pad)
        if op == "conv2d":
            b = gen.int_array(dict(c["y"], shape=[kh, kw, ch, o]), B)
            want = np.transpose(np.tensordot(P, b, axes=([3, 4, 5], [0, 1, 2])), (0, 3, 1, 2))
            expect(mk(a).conv2d(mk(b), [sh, sw], pad), want, op)
        else:
            g = mk(a).im2patches([kh, kw], [sh, sw], pad, "NCHW")
            pw = np.transpose(P.reshape(P.shape[:3] + (-1,)), (0, 3, 1, 2))
            expect(g, pw, "im2patches")
            _, pt, pb = pad_of(h, kh, sh, pad)
            _, pl, pr = pad_of(w, kw, sw, pad)
            full = np.zeros((n, ch, h + pt + pb, w + pl + pr), dtype=object)
            for ii in range(P.shape[1]):
                for jj in range(P.shape[2]):
                    full[:, :, ii * sh:ii * sh + kh, jj * sw:jj * sw + kw] += np.transpose(P[:, ii, jj], (0, 3, 1, 2))
            back = full[:, :, pt:pt + h, pl:pl + w]
            expect(g.patches2im([kh, kw], [sh, sw], pad, img_size=(h, w)), back, "patches2im")
    elif op == "big":
        # large enough for the kernels' sharded paths
        n = 3000 + k
        a = gen.int_array({"shape": [n], "k": "uniform", "s": c["x"]["s"]}, B)
        b = gen.int_array({"shape": [n], "k": "uniform", "s": c["y"]["s"]}, B)
        expect(mk(a) + mk(b), a + b, "big add")
        expect(mk(a) * mk(b), a * b, "big mul")
        expect(mk(a) >> (k % 128), a // 2**(k % 128), "big shr")
        m = 40
        A, C = a[: m * m].reshape(m, m), b[: m * m].reshape(m, m)
        expect(mk(A).matmul(mk(C)), A.dot(C), "big matmul")
        expect(mk(A).reduce_sum(k % 2), A.sum(axis=k % 2), "big reduce_sum")
    return x.size > 0


FAMILIES = [
    Family("i128_ops", case, check, quick=6000, shards=8, budget=120,
           rule="one 128-bit operation on generated elements (edges around 2^63, 2^64, 2^127, "
                "uniform, powers of two) against Python integers; non-trivial when non-empty and "
                "the operation applies"),
]
