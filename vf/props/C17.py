"""Ring tensors (native widths, prime moduli, booleans, odd modulus) vs big integers."""
import numpy as np
import tensorflow as tf
from hypothesis import strategies as st

from .. import gen
from ..core import Family, Violation, count
from ..env import tfe  # noqa: F401
from tf_encrypted.protocol.securenn.odd_tensor import oddint32_factory, oddint64_factory
from tf_encrypted.tensor import factories, int1factory
from tf_encrypted.tensor.native import native_factory

NATIVE = {8: tf.int8, 16: tf.int16, 32: tf.int32, 64: tf.int64}
PRIMES = [3, 5, 7, 37, 67, 107, 1009, 10007]
_prime_factory = {}


def fact(ring):
    if ring[0] == "n":
        return factories[int(ring[1:])]
    p = int(ring[1:])
    if p not in _prime_factory:
        _prime_factory[p] = native_factory(tf.int32, p)
    return _prime_factory[p]


def red(a, ring):
    if ring[0] == "n":
        return gen.wrap(a, int(ring[1:]))
    p = int(ring[1:])
    a = np.asarray(a, dtype=object)
    return np.vectorize(lambda v: int(v) % p, otypes=[object])(a) if a.size else a


def elems(d, ring):
    if ring[0] == "n":
        return gen.int_array(d, int(ring[1:]))
    return red(gen.int_array(d, 24), ring)


def ten(a, ring, how="tensor"):
    f = fact(ring)
    v = a.astype(f.native_type.as_numpy_dtype)
    if how == "tf":
        return f.tensor(tf.constant(v))
    if how == "constant":
        return f.constant(v)
    if how == "variable":
        return f.variable(v)
    return f.tensor(v)


def val(t):
    return gen.obj(t.to_native().numpy())


def expect(got, want, what):
    got = val(got) if not isinstance(got, np.ndarray) else got
    count("elements", np.size(want))
    if not gen.same(got, want):
        raise Violation("%s: %s" % (what, gen.first_diff(got, want)))


BIN = ["add", "sub", "mul", "radd_i", "rsub_i", "rmul_i", "add_i", "sub_i", "mul_i",
       "xor", "and", "or", "equal"]
UN = ["neg", "negative", "shl", "shr", "lshr", "invert", "bits", "mod", "reduce_sum",
      "cumsum", "equal_zero", "truncate", "cast", "stack", "concat", "matmul", "where",
      "zeros", "ones", "reduce_max", "reverse", "gather", "split", "transpose",
      "reshape", "tile", "slice", "scatter", "expand", "roundtrip"]


@st.composite
def case(draw):
    ring = draw(st.sampled_from(["n8", "n16", "n32", "n64", "n64"] + ["p%d" % p for p in PRIMES]))
    op = draw(st.sampled_from(BIN + UN))
    a, b = draw(gen.bcast_pair(3, 4))
    c = {"ring": ring, "op": op, "x": draw(gen.ints_desc(a)), "y": draw(gen.ints_desc(b)),
         "how": draw(st.sampled_from(["tensor", "tf", "constant", "variable"])),
         "k": draw(st.integers(0, 63)), "i": draw(st.integers(-1000, 1000)),
         "f": draw(st.booleans()), "g": draw(st.booleans())}
    return c


def vsum(a, axis, keep):
    return np.sum(a, axis=axis, keepdims=keep)


def check(c):
    ring, op = c["ring"], c["op"]
    f = fact(ring)
    prime = ring[0] == "p"
    bits = 32 if prime else int(ring[1:])
    x, y = elems(c["x"], ring), elems(c["y"], ring)
    if op not in BIN:
        y = elems(dict(c["y"], shape=c["x"]["shape"]), ring)
    X, Y = ten(x, ring, c["how"]), ten(y, ring)
    nd = x.ndim
    k, i = c["k"], c["i"]
    if not prime:
        i = int(gen.wrap(np.array(i, dtype=object), bits))
    ax = k % nd if nd else None
    if op in ("add", "sub", "mul"):
        w = {"add": x + y, "sub": x - y, "mul": x * y}[op]
        g = {"add": X + Y, "sub": X - Y, "mul": X * Y}[op]
        expect(g, red(w, ring), op)
    elif op.endswith("_i"):
        w, g = {
            "add_i": lambda: (x + i, X + i), "sub_i": lambda: (x - i, X - i),
            "mul_i": lambda: (x * i, X * i), "radd_i": lambda: (i + x, i + X),
            "rsub_i": lambda: (i - x, i - X), "rmul_i": lambda: (i * x, i * X),
        }[op]()
        expect(g, red(w, ring), op)
    elif op in ("xor", "and", "or"):
        if prime:
            return False
        fn = {"xor": lambda a, b: a ^ b, "and": lambda a, b: a & b, "or": lambda a, b: a | b}[op]
        w = np.frompyfunc(fn, 2, 1)(x, y)
        g = {"xor": lambda: X ^ Y, "and": lambda: X & Y, "or": lambda: X | Y}[op]()
        expect(g, np.asarray(w, dtype=object), op)
    elif op == "equal":
        if c["f"]:
            y = np.where(np.random.RandomState(c["k"]).rand(*np.broadcast(x, y).shape) < .5,
                         np.broadcast_to(x, np.broadcast(x, y).shape),
                         np.broadcast_to(y, np.broadcast(x, y).shape)).astype(object)
            Y = ten(y, ring)
        expect(X.equal(Y), gen.obj((x == y) * 1), op)
    elif op in ("neg", "negative"):
        expect(-X if op == "neg" else X.negative(), red(-x, ring), op)
    elif op in ("shl", "shr", "lshr"):
        if prime:
            return False
        k %= bits
        if op == "shl":
            expect(X << k if c["f"] else X.left_shift(k), red(x * (1 << k), ring), op)
        elif op == "shr":
            expect(X >> k if c["f"] else X.right_shift(k), red(x // (1 << k), ring), op)
        else:
            m = 1 << bits
            w = red(np.asarray((x % m) // (1 << k), dtype=object), ring)
            expect(X.logical_rshift(k), w, op)
    elif op == "invert":
        if prime:
            return False
        expect(~X, red(-x - 1, ring), op)
    elif op == "bits":
        n = (1 << bits) if not prime else None
        nb = bits if not prime else int(np.ceil(np.log2(f.modulus)))
        u = x % n if n else x
        w = np.stack([np.asarray((u >> j) & 1, dtype=object) for j in range(nb)], axis=-1)
        expect(X.bits(), w.astype(object), op)
        if not prime:
            t = 1 + k % bits
            expect(X.bits(bitsize=t), w[..., :t], "bits(bitsize)")
    elif op == "mod":
        m = 2 + k
        w = x % m
        if prime:
            w = w % f.modulus
        expect(X % m, np.asarray(w, dtype=object), op)
    elif op == "reduce_sum":
        a = None if c["f"] or nd == 0 else ax
        expect(X.reduce_sum(a, c["g"]), red(np.asarray(vsum(x, a, c["g"]), dtype=object), ring), op)
    elif op == "cumsum":
        if nd == 0:
            return False
        w = x
        if c["g"]:
            w = np.flip(w, ax)
        cs = np.cumsum(w, axis=ax)
        if c["f"]:
            cs = cs - w
        if c["g"]:
            cs = np.flip(cs, ax)
        expect(X.cumsum(ax, c["f"], c["g"]), red(cs, ring), op)
    elif op == "equal_zero":
        z = np.where(np.random.RandomState(k).rand(*x.shape) < .5, x, 0).astype(object).reshape(x.shape)
        expect(ten(z, ring).equal_zero(), gen.obj((z == 0) * 1), op)
    elif op == "truncate":
        if prime:
            return False
        k %= bits
        expect(X.truncate(k), red(x // (1 << k), ring), op)
        # odd base: exact division of (x - x mod base^k) in the ring
        e = k % 9
        if bits == 64 and e:
            q = 3 ** e
            expect(X.truncate(e, base=3), red(x // q, ring), "truncate base 3")
    elif op == "cast":
        if prime:
            return False
        o = [8, 16, 32, 64][k % 4]
        expect(X.cast(factories[o]), gen.wrap(x, o), "cast n%d->n%d" % (bits, o))
    elif op == "stack":
        a = k % (nd + 1)
        expect(f.stack([X, Y, X], axis=a), np.stack([x, y, x], axis=a), op)
    elif op == "concat":
        if nd == 0:
            return False
        expect(f.concat([Y, X], axis=ax), np.concatenate([y, x], axis=ax), op)
    elif op == "matmul":
        if bits < 32:
            return False
        r = np.random.RandomState(k)
        n, m, p = r.randint(1, 5, size=3)
        a = elems(dict(c["x"], shape=[int(n), int(m)]), ring)
        b = elems(dict(c["y"], shape=[int(m), int(p)]), ring)
        expect(ten(a, ring).matmul(ten(b, ring)), red(a.dot(b), ring), op)
    elif op == "where":
        cond = np.random.RandomState(k).rand(*x.shape) < .5
        cond = np.asarray(cond).reshape(x.shape)
        expect(f.where(tf.constant(cond), X, Y), np.where(cond, x, y), op)
    elif op == "zeros":
        expect(f.zeros(list(x.shape)), gen.obj(np.zeros(x.shape)), op)
        expect(f.zeros_like(X), gen.obj(np.zeros(x.shape)), op + "_like")
        expect(X + f.zeros_like(X), red(x, ring), "x + zeros")
    elif op == "ones":
        expect(f.ones(list(x.shape)), gen.obj(np.ones(x.shape)), op)
        expect(X * f.ones_like(X), red(x, ring), "x * ones")
    elif op == "reduce_max":
        a = None if c["f"] or nd == 0 else ax
        expect(X.reduce_max(a, c["g"]), np.asarray(np.max(x, axis=a, keepdims=c["g"]), dtype=object), op)
    elif op == "reverse":
        if nd == 0:
            return False
        expect(X.reverse([ax]), np.flip(x, ax), op)
    elif op == "gather":
        if nd == 0:
            return False
        idx = list(np.random.RandomState(k).randint(0, x.shape[ax], size=3))
        expect(X.gather(idx, axis=ax), np.take(x, idx, axis=ax), op)
    elif op == "split":
        if nd == 0 or x.shape[ax] < 2:
            return False
        parts = X.split([1, x.shape[ax] - 1], axis=ax)
        for g, w in zip(parts, np.split(x, [1], axis=ax)):
            expect(g, w, op)
    elif op == "transpose":
        p = list(np.random.RandomState(k).permutation(nd))
        expect(X.transpose(p), np.transpose(x, p), op)
    elif op == "reshape":
        expect(X.reshape([-1]), x.reshape(-1), op)
    elif op == "tile":
        if nd == 0:
            return False
        m = [int(v) for v in np.random.RandomState(k).randint(1, 3, size=nd)]
        expect(f.tile(X, m), np.tile(x, m), op)
    elif op == "slice":
        if nd == 0:
            return False
        expect(X[:: 1 + k % 2], x[:: 1 + k % 2], "index")
        b, e, s = [0] * nd, list(x.shape), [1 + k % 2] * nd
        expect(X.strided_slice((b, e, s), {}), x[tuple(slice(None, None, 1 + k % 2) for _ in range(nd))], op)
    elif op == "scatter":
        v = x.reshape(-1)
        n = len(v)
        idx = np.random.RandomState(k).permutation(n + 2)[:n]
        w = gen.obj(np.zeros(n + 2))
        w[idx] = v
        t = ten(v, ring)
        expect(t.scatter_nd(tf.constant(idx[:, None]), [n + 2]), w, op)
        expect(f.scatter_nd(tf.constant(idx[:, None]), t, [n + 2]), w, op)
    elif op == "expand":
        a = k % (nd + 1)
        e = X.expand_dims(a)
        expect(e, np.expand_dims(x, a), op)
        expect(e.squeeze([a]), x, "squeeze")
    elif op == "roundtrip":
        expect(X.identity(), x, "identity")
        v = ten(x, ring, "variable")
        v.assign(Y)
        expect(v.read_value(), y, "assign/read")
        v.assign(x.astype(f.native_type.as_numpy_dtype))
        expect(v.read_value(), x, "assign ndarray/read")
    return x.size > 0


# ---- booleans

@st.composite
def bcase(draw):
    a, b = draw(gen.bcast_pair(3, 3))
    return {"a": a, "b": b, "s": draw(gen.SEED),
            "op": draw(st.sampled_from(["xor", "and", "or", "not", "equal", "cast", "assign",
                                        "struct", "where"])),
            "k": draw(st.integers(0, 7))}


def bcheck(c):
    r = np.random.RandomState(c["s"])
    x, y = np.array(r.rand(*c["a"]) < .5), np.array(r.rand(*c["b"]) < .5)
    f = int1factory
    X, Y = f.tensor(x), f.tensor(tf.constant(y))
    op, k = c["op"], c["k"]

    def ex(g, w, what=op):
        g = np.asarray(g.to_native())
        if g.dtype != bool or g.shape != np.shape(w) or not np.array_equal(g, w):
            raise Violation("bool %s: %s" % (what, gen.first_diff(g, np.asarray(w))))

    if op == "xor":
        ex(X ^ Y, x ^ y)
    elif op == "and":
        ex(X & Y, x & y)
    elif op == "or":
        ex(X | Y, x | y)
    elif op == "not":
        ex(~X, ~x)
    elif op == "equal":
        ex(X.equal(Y), x == y)
    elif op == "cast":
        for n in (8, 64):
            g = X.cast(factories[n]).to_native().numpy()
            if not np.array_equal(g, x.astype(int)):
                raise Violation("bool cast to %d" % n)
        ex(factories[32].tensor(x.astype(np.int32)).cast(f), x)
    elif op == "assign":
        v = f.variable(x)
        ex(v.read_value(), x)
        z = np.array(~x)
        v.assign(f.tensor(z))
        ex(v.read_value(), z, "assign tensor")
        v.assign(x)
        ex(v.read_value(), x, "assign ndarray")
    elif op == "where":
        y = np.asarray(r.rand(*c["a"]) < .5)
        cond = np.asarray(r.rand(*c["a"]) < .5)
        ex(f.where(tf.constant(cond), X, f.tensor(y)), np.where(cond, x, y))
    else:
        ex(f.stack([X, X], axis=0), np.stack([x, x]), "stack")
        ex(X.expand_dims(0), x[None], "expand")
        ex(X.reshape([-1]), x.reshape(-1), "reshape")
        if x.ndim:
            a = k % x.ndim
            ex(f.concat([X, X], axis=a), np.concatenate([x, x], axis=a), "concat")
            ex(X.gather([0, 0], axis=a), np.take(x, [0, 0], axis=a), "gather")
            p = list(r.permutation(x.ndim))
            ex(X.transpose(p), np.transpose(x, p), "transpose")
            ex(X[:: -1], x[:: -1], "index")


# ---- odd modulus 2^k - 1

@st.composite
def ocase(draw):
    return {"bits": draw(st.sampled_from([32, 64])), "op": draw(st.sampled_from(["add", "sub", "bits", "cast", "chain"])),
            "x": draw(gen.ints_desc(draw(gen.shapes(1, 2, 6)))), "s": draw(gen.SEED),
            "k2": draw(st.sampled_from(["edge", "uniform", "pow2", "small"])),
            "uni": draw(st.booleans())}


def ocheck(c):
    """The odd ring's representatives: pos(x) = x mod 2^k, with 2^k - 1 identified with 0."""
    b = c["bits"]
    M = (1 << b) - 1
    f = {32: oddint32_factory, 64: oddint64_factory}[b]
    dt = {32: np.int32, 64: np.int64}[b]
    x = gen.int_array(c["x"], b)
    y = gen.int_array(dict(c["x"], s=c["s"], k=c["k2"]), b)

    def mk(a):
        return f.tensor(tf.constant(a.astype(dt)))

    def pos(a):
        a = gen.obj(a)
        return np.asarray(a % (1 << b), dtype=object)

    X, Y = mk(x), mk(y)
    px, py = pos(x) % M, pos(y) % M
    if c["uni"]:
        Y = f.sample_uniform(list(x.shape))
        v1, v2 = Y.value.numpy(), Y.value.numpy()
        if not np.array_equal(v1, v2):
            raise Violation("uniform odd tensor is not stable under re-expansion")
        py = pos(v1)
        if np.any(py == M):
            raise Violation("odd sample holds the excluded value")
    for t, p in ((X, px), (Y, py)):
        if not gen.same(pos(t.value.numpy()), p):
            raise Violation("odd encode: " + gen.first_diff(pos(t.value.numpy()), p))

    def ex(g, w, what):
        got = pos(g.value.numpy())
        if not gen.same(got, np.asarray(w % M, dtype=object)):
            raise Violation("odd %s: %s" % (what, gen.first_diff(got, w % M)))

    if c["op"] == "add":
        ex(X + Y, px + py, "add")
    elif c["op"] == "sub":
        ex(X - Y, px - py, "sub")
        ex(Y - X, py - px, "rsub")
    elif c["op"] == "bits":
        bt = X.bits(factory=factories[8]).to_native().numpy()
        w = np.stack([np.asarray((px >> j) & 1, dtype=object) for j in range(b)], -1)
        if not gen.same(gen.obj(bt), w):
            raise Violation("odd bits")
    elif c["op"] == "cast":
        g = gen.obj(X.cast(factories[b]).to_native().numpy())
        if not gen.same(g, gen.wrap(px, b)):
            raise Violation("odd cast")
    else:
        ex((X + Y) - Y, px, "add/sub")
        ex((X - Y) + Y, px, "sub/add")
        ex(X + (Y - X), py, "x+(y-x)")


# ---- image helpers: convolution, patches and their inverse

@st.composite
def icase(draw):
    return {"n": draw(st.integers(1, 2)), "c": draw(st.integers(1, 3)),
            "h": draw(st.integers(2, 6)), "w": draw(st.integers(2, 6)),
            "kh": draw(st.integers(1, 3)), "kw": draw(st.integers(1, 3)),
            "sh": draw(st.integers(1, 2)), "sw": draw(st.integers(1, 2)),
            "pad": draw(st.sampled_from(["SAME", "VALID"])), "o": draw(st.integers(1, 3)),
            "b": draw(st.sampled_from([32, 64])), "s": draw(gen.SEED),
            "k": draw(st.sampled_from(["small", "uniform", "edge"])),
            "fmt": draw(st.sampled_from(["NCHW", "NHWC"]))}


def pad_of(h, k, s, pad):
    if pad == "VALID":
        o = (h - k) // s + 1
        return o, 0, 0
    o = -(-h // s)
    t = max((o - 1) * s + k - h, 0)
    return o, t // 2, t - t // 2


def ref_patches(x, kh, kw, sh, sw, pad):
    """x: NCHW object array -> [n, oh, ow, kh, kw, c]."""
    n, c, h, w = x.shape
    oh, pt, pb = pad_of(h, kh, sh, pad)
    ow, pl, pr = pad_of(w, kw, sw, pad)
    xp = np.zeros((n, c, h + pt + pb, w + pl + pr), dtype=object)
    xp[:, :, pt:pt + h, pl:pl + w] = x
    out = np.zeros((n, oh, ow, kh, kw, c), dtype=object)
    for i in range(oh):
        for j in range(ow):
            out[:, i, j] = np.transpose(xp[:, :, i * sh:i * sh + kh, j * sw:j * sw + kw], (0, 2, 3, 1))
    return out


def icheck(c):
    if c["pad"] == "VALID" and (c["kh"] > c["h"] or c["kw"] > c["w"]):
        return False
    b = c["b"]
    f = factories[b]
    dt = f.native_type.as_numpy_dtype
    x = gen.int_array({"shape": [c["n"], c["c"], c["h"], c["w"]], "k": c["k"], "s": c["s"]}, b)
    y = gen.int_array({"shape": [c["kh"], c["kw"], c["c"], c["o"]], "k": c["k"], "s": c["s"] + 1}, b)
    st_ = [c["sh"], c["sw"]]
    P = ref_patches(x, c["kh"], c["kw"], c["sh"], c["sw"], c["pad"])
    want = np.tensordot(P, y, axes=([3, 4, 5], [0, 1, 2]))  # n oh ow o
    want = gen.wrap(np.transpose(want, (0, 3, 1, 2)), b)
    X, Y = f.tensor(x.astype(dt)), f.tensor(y.astype(dt))
    g = gen.obj(X.conv2d(Y, st_, c["pad"]).to_native().numpy())
    if not gen.same(g, want):
        raise Violation("conv2d: " + gen.first_diff(g, want))
    # patches
    n, oh, ow = P.shape[:3]
    pw = P.reshape(n, oh, ow, -1)
    if c["fmt"] == "NCHW":
        gp = X.im2patches([c["kh"], c["kw"]], st_, c["pad"], "NCHW")
        wp = np.transpose(pw, (0, 3, 1, 2))
    else:
        gp = X.transpose([0, 2, 3, 1]).im2patches([c["kh"], c["kw"]], st_, c["pad"], "NHWC")
        wp = pw
    g = gen.obj(gp.to_native().numpy())
    if not gen.same(g, wp):
        raise Violation("im2patches: " + gen.first_diff(g, wp))
    # overlap-add of the patches back onto the image (adjoint of extraction)
    back = np.zeros(x.shape, dtype=object)
    _, pt, pb = pad_of(c["h"], c["kh"], c["sh"], c["pad"])
    _, pl, pr = pad_of(c["w"], c["kw"], c["sw"], c["pad"])
    full = np.zeros((n, c["c"], c["h"] + pt + pb, c["w"] + pl + pr), dtype=object)
    for i in range(oh):
        for j in range(ow):
            full[:, :, i * c["sh"]:i * c["sh"] + c["kh"], j * c["sw"]:j * c["sw"] + c["kw"]] += \
                np.transpose(P[:, i, j], (0, 3, 1, 2))
    back = gen.wrap(full[:, :, pt:pt + c["h"], pl:pl + c["w"]], b)
    if c["fmt"] == "NHWC":
        back = np.transpose(back, (0, 2, 3, 1))
    r = gp.patches2im([c["kh"], c["kw"]], st_, c["pad"], img_size=(c["h"], c["w"]),
                      data_format=c["fmt"])
    g = gen.obj(r.to_native().numpy())
    if not gen.same(g, back):
        raise Violation("patches2im: " + gen.first_diff(g, back))


FAMILIES = [
    Family("ring_ops", case, check, quick=6000, shards=8, budget=80,
           rule="one ring operation on generated elements of int8..int64 or a prime field "
                "against Python integers; non-trivial when the operation applies to the ring "
                "and the tensor is non-empty"),
    Family("bool_ops", bcase, bcheck, quick=500, shards=1, budget=40,
           rule="one boolean tensor operation against numpy; always non-trivial"),
    Family("odd_ring", ocase, ocheck, quick=600, shards=1, budget=40,
           rule="add/sub/bits/cast in the ring modulo 2^k-1, incl. seed-expanded operands"),
    Family("image_ops", icase, icheck, quick=500, shards=2, budget=60, cost=4,
           rule="convolution, patch extraction and overlap-add on ring tensors against a "
                "direct loop; non-trivial when the window fits"),
]
