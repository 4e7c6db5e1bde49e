"""SecureNN comparisons, bit tests, selection, rectifier, maxima vs plaintext."""
import numpy as np
import tensorflow as tf
from hypothesis import strategies as st

from .. import gen, prot as P
from ..core import Family, Violation, count
from ..prot import exact, recon2
from .C06 import operands

CMP = ["lt", "le", "gt", "ge", "neg", "nonneg", "msb", "max", "relu", "relu_cmp", "relu_split", "select"]
ONE_OFF = -1  # known finding: in the 64-bit ring a difference of exactly minus one unit counts as >= 0


def common(draw):
    return {"cfg": draw(st.sampled_from(["fixed64", "fixed64_ni", "fixed100"])),
            "debug": draw(st.booleans()), "multi": draw(st.integers(0, 5)) == 0, "s": draw(gen.SEED)}


@st.composite
def case_cmp(draw):
    a, b = draw(gen.bcast_pair(3, 4))
    c = common(draw)
    c.update(op=draw(st.sampled_from(CMP)), x=draw(gen.ints_desc(a, ("edge", "uniform", "pow2", "small"))),
             sh=b, rel=draw(st.sampled_from(["near", "near", "equal", "free", "neg"])),
             scaled=draw(st.booleans()), kx=draw(st.sampled_from(["private", "private", "masked", "public"])),
             ky=draw(st.sampled_from(["private", "private", "masked", "public", "public"])))
    return c


@st.composite
def case_reduce(draw):
    c = common(draw)
    c.update(v=draw(gen.ints_desc(gen.shapes(1, 3, 5), ("edge", "uniform", "small", "small", "const"))),
             ax=draw(st.integers(0, 2)), scaled=draw(st.booleans()),
             op=draw(st.sampled_from(["max", "argmax", "both"])),
             k=draw(st.sampled_from(["private", "private", "masked"])))
    return c


@st.composite
def case_bits(draw):
    a, b = draw(gen.bcast_pair(3, 4))
    c = common(draw)
    c.update(op=draw(st.sampled_from(["not", "and", "or", "xor", "lsb", "lsb_pub", "bits", "eq0", "pcmp", "pcmp",
                                      "cast"])),
             x=draw(gen.ints_desc(a, ("edge", "uniform", "pow2", "small"))), sh=b,
             rel=draw(st.sampled_from(["near", "near", "equal", "free"])),
             kx=draw(st.sampled_from(["private", "masked", "public"])),
             ky=draw(st.sampled_from(["private", "masked", "public"])))
    return c


def mk(p, v, kind, scaled):
    a = np.asarray(np.asarray(v, dtype=object).astype(np.int64))
    if kind == "public":
        t = p.define_constant(a, apply_scaling=False)
    else:
        t = p.define_private_variable(a, apply_scaling=False)
    t.is_scaled = scaled
    return p.mask(t) if kind == "masked" else t


def expect(t, want, what, skip=None, scaled=None):
    """Ring value of t is want, except (known finding) where skip is set."""
    got = np.asarray(recon2(t, what), dtype=object)
    want = np.asarray(want, dtype=object)
    if got.shape != want.shape:
        raise Violation("%s: shape %s, expected %s" % (what, got.shape, want.shape))
    if skip is not None:
        skip = np.broadcast_to(np.asarray(skip, dtype=bool), want.shape)
        got = np.where(skip, want, got)
        count("excluded by the known finding", int(skip.sum()))
    exact(got, want, what)
    if scaled is not None and bool(t.is_scaled) != scaled:
        raise Violation("%s: scale mark %s, expected %s" % (what, t.is_scaled, scaled))


def b01(m):
    return gen.obj(np.asarray(m, dtype=bool).astype(int))


def check_cmp(c):
    p = P.two_party("securenn", c["cfg"], debug=c["debug"], multi=c["multi"])
    w64 = c["cfg"] != "fixed100"
    x, y = operands(c, 63)
    x, y = np.asarray(x, dtype=object), np.asarray(y, dtype=object)
    op, kx, ky, sc = c["op"], c["kx"], c["ky"], c["scaled"]
    if kx == "public":
        ky = "private" if ky == "public" else ky
    bs = np.broadcast_shapes(x.shape, y.shape)
    # a private operand smaller than the public one is refused by +/-
    if ky == "public" and x.shape != bs:
        ky = "private"
    if kx == "public" and y.shape != bs:
        kx = "private"
    X, Y = mk(p, x, kx, sc), mk(p, y, ky, sc)
    what = "%s %s %s,%s" % (c["cfg"], op, kx, ky)
    d = np.asarray(x - y, dtype=object)
    one = np.zeros(d.shape, dtype=bool)
    lo = np.asarray(d == -1, dtype=bool) if w64 else one
    hi = np.asarray(d == 1, dtype=bool) if w64 else one
    nt = bool(np.any(d == 0)) or bool(np.any(abs(d) <= 2))
    if op == "lt":
        expect(p.less(X, Y), b01(x < y), what, lo, False)
    elif op == "le":
        expect(p.less_equal(X, Y), b01(x <= y), what, hi, False)
    elif op == "gt":
        expect(p.greater(X, Y), b01(x > y), what, hi, False)
    elif op == "ge":
        expect(p.greater_equal(X, Y), b01(x >= y), what, lo, False)
    elif op in ("neg", "nonneg", "msb", "relu", "relu_cmp", "relu_split"):
        if kx != "private":  # the sign of a masked tensor is refused
            X, kx = mk(p, x, "private", sc), "private"
        m1 = np.asarray(x == ONE_OFF, dtype=bool) if w64 else np.zeros(x.shape, dtype=bool)
        nt = bool(np.any(x < 0)) and bool(np.any(x >= 0))
        r = np.where(np.asarray(x < 0, dtype=bool), 0, x).astype(object)
        if op == "neg":
            expect(p.is_negative(X), b01(x < 0), what, m1, False)
        elif op == "msb":
            expect(p.msb(X), b01(x < 0), what, m1, False)
        elif op == "nonneg":
            expect(p.non_negative(X), b01(x >= 0), what, m1, False)
        elif op == "relu":
            expect(p.relu(X), r, what, m1, sc)
        else:
            kw = {}
            if op == "relu_split":
                if x.ndim == 0:
                    return False
                kw["max_size"] = 1 + c["s"] % max(1, x.size)
            a, b = p.relu_with_cmp(X, **kw)
            expect(a, r, what + " value", m1, sc)
            expect(b, b01(x >= 0), what + " bit", m1, False)
    elif op == "max":
        expect(p.maximum(X, Y), np.maximum(x, y), what, hi, sc)
    elif op == "select":
        rng = np.random.Generator(np.random.PCG64(c["s"]))
        s = b01(rng.integers(0, 2, size=d.shape))
        S = mk(p, s, ["private", "public", "masked"][c["s"] % 3], False)
        expect(p.select(S, X, Y), np.where(s == 1, y, x).astype(object), what, None, sc)
    return nt


def check_reduce(c):
    p = P.two_party("securenn", c["cfg"], debug=c["debug"], multi=c["multi"])
    v = np.asarray(gen.int_array(c["v"], 61), dtype=object)
    if c["cfg"] != "fixed100":
        v = v * 2  # no pair one unit apart (known finding)
    ax = c["ax"] % v.ndim
    sc = c["scaled"]
    X = mk(p, v, c["k"], sc)
    what = "%s %s %s axis %d of %s" % (c["cfg"], c["op"], c["k"], ax, v.shape)
    want = np.asarray(v.max(axis=ax), dtype=object)
    m = idx = None
    if c["op"] == "max":
        m = p.reduce_max(X, axis=ax)
    elif c["op"] == "argmax":
        idx = p.argmax(X, axis=ax)
    else:
        m, idx = p.reduce_max_with_argmax(X, axis=ax)
    if m is not None:
        expect(m, want, what, None, sc)
    if idx is not None:
        got = np.asarray((idx.reveal() if hasattr(idx, "reveal") else idx).to_native(), dtype=np.float64)
        if got.shape != want.shape:
            raise Violation("%s: index shape %s, expected %s" % (what, got.shape, want.shape))
        i = np.rint(got).astype(int)
        if np.any(abs(got - i) > 1e-2) or np.any(i < 0) or np.any(i >= v.shape[ax]):
            raise Violation("%s: not an index: %s" % (what, got.tolist()))
        at = np.take_along_axis(v, np.expand_dims(i, ax), axis=ax).squeeze(ax)
        exact(np.asarray(at, dtype=object).reshape(want.shape), want, what + ": value at the index")
    return v.shape[ax] > 1


def check_bits(c):
    p = P.two_party("securenn", c["cfg"], debug=c["debug"], multi=c["multi"])
    op, kx, ky = c["op"], c["kx"], c["ky"]
    x, y = operands(c, 63)
    x, y = np.asarray(x, dtype=object), np.asarray(y, dtype=object)
    what = "%s %s %s,%s" % (c["cfg"], op, kx, ky)
    if op in ("not", "and", "or", "xor"):
        a, b = np.asarray(x % 2, dtype=object), np.asarray((y // 2) % 2, dtype=object)
        A = mk(p, a, kx, False)
        if op == "not":
            expect(p.bitwise_not(A), 1 - a, what, None, False)
            return True
        if kx == "masked" and ky == "masked" and op != "and":
            kx = "private"
            A = mk(p, a, kx, False)
        if ky == "public" and a.shape != np.broadcast_shapes(a.shape, b.shape):
            ky = "private"
        if kx == "public" and b.shape != np.broadcast_shapes(a.shape, b.shape):
            A = mk(p, a, "private", False)
        B = mk(p, b, ky, False)
        f = {"and": p.bitwise_and, "or": p.bitwise_or, "xor": p.bitwise_xor}[op]
        w = {"and": a * b, "or": a + b - a * b, "xor": a + b - 2 * a * b}[op]
        expect(f(A, B), np.asarray(w, dtype=object), what, None, False)
        return True
    if op == "lsb":
        # least significant bit of the representative in [0, modulus), for odd moduli
        fo = p.odd_factory
        m = fo.modulus
        X = mk(p, x, "private", False)
        if c["cfg"] == "fixed100":
            if kx == "masked":
                X = p.mask(X)
        else:
            raw = fo.tensor(tf.constant(np.asarray(x.astype(np.int64)), dtype=tf.int64))
            with tf.device(p.server_0.device_name):
                s0 = fo.sample_uniform(raw.shape).identity()
            with tf.device(p.server_1.device_name):
                s1 = (raw - s0).identity()
            from tf_encrypted.protocol.pond import PondPrivateTensor
            X = PondPrivateTensor(p, s0, s1, False)
            # the odd ring reduces -1 = 2^64-1 to zero
            x = np.asarray(sum(gen.obj(np.asarray(h.value)) % 2**64 for h in X.unwrapped), dtype=object)
        w = np.asarray((x % m) % 2, dtype=object)
        expect(p.lsb(X), w, what, None, False)
        return True
    if op == "lsb_pub":
        X = mk(p, x, "public", False)
        expect(p.lsb(X), np.asarray(x % 2, dtype=object), what, None, False)
        return True
    if op == "bits":
        X = mk(p, x, "public", False)
        B = p.bits(X)
        n = 64 if c["cfg"] != "fixed100" else int(B.shape[-1])
        u = np.asarray(x % (1 << n), dtype=object)  # two's complement of the centred value
        if n < P.modulus(p).bit_length() - (1 if n == 64 else 0):
            raise Violation("%s: %d bits" % (what, n))
        w = np.stack([np.asarray((u >> i) & 1, dtype=object) for i in range(n)], axis=-1)
        expect(B, w, what, None, False)
        return True
    if op == "eq0":
        z = np.where(np.asarray(x % 3 == 0, dtype=bool), 0, x).astype(object)
        expect(p.equal_zero(mk(p, z, "public", False)), b01(z == 0), what, None, False)
        return bool(np.any(z == 0))
    if op == "cast":
        if c["cfg"] == "fixed100":  # refused
            return False
        # unsigned representatives survive the cast of a public tensor to the prime ring
        small = np.asarray(abs(x) % 100, dtype=object)
        t = p.cast_backing(mk(p, small, "public", False), p.prime_factory)
        expect(t, P.signed(small, p.prime_factory.modulus), what)
        return True
    # private comparison of bits with a public value: (x > r) xor beta, unsigned
    from tf_encrypted.protocol.securenn import securenn as S
    f = getattr(S, "_private_compare", None)
    if f is None:
        return False
    x = np.broadcast_to(x, np.broadcast_shapes(x.shape, y.shape))
    y = np.broadcast_to(y, x.shape)
    m = P.modulus(p)
    vd, bd = p.tensor_factory, p.prime_factory
    rng = np.random.Generator(np.random.PCG64(c["s"]))
    beta = rng.integers(0, 2, size=x.shape)
    if c["s"] % 5 == 0:
        y = np.where(beta == 1, -1, y).astype(object)  # r + 1 wraps to zero
    xt = mk(p, x, "public", False).unwrapped[0]
    xb = p._share_and_wrap(xt.bits(bd), False)
    r = mk(p, y, "public", False)
    from tf_encrypted.protocol.pond import PondPublicTensor
    bt = []
    for sv in (p.server_0, p.server_1):
        with tf.device(sv.device_name):
            bt.append(bd.tensor(tf.identity(tf.constant(beta, dtype=bd.native_type))))
    B = PondPublicTensor(p, bt[0], bt[1], False)
    got = f(p, xb, r, B)
    w = np.asarray((x % m) > (y % m), dtype=bool) ^ (beta == 1)
    expect(got, b01(w), what)
    return bool(np.any(x == y)) or bool(np.any(abs(x - y) == 1))


FAMILIES = [
    Family("comparisons", case_cmp, check_cmp, 1300, shards=5, cost=2.0,
           rule="some operands equal or within two units / inputs of both signs"),
    Family("reductions", case_reduce, check_reduce, 220, shards=2, cost=6.0, rule="axis longer than one"),
    Family("bits", case_bits, check_bits, 1000, shards=1, cost=1.0,
           rule="the operation applies; comparisons with equal or adjacent operands"),
]
