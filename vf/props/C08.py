"""ABY3 boolean sharing, bit circuits and share conversion vs machine integers."""
import numpy as np
import tensorflow as tf
from hypothesis import strategies as st

from .. import gen, prot as P
from ..core import Family, Violation, count
from ..prot import ARITH, BOOL, exact, recon

WIDTHS = [1, 8, 16, 32, 64, 64, 128]


def uns(a, n):
    return np.asarray(np.asarray(a, dtype=object) % (1 << n), dtype=object)


def vec(f, *a):
    a = np.broadcast_arrays(*[np.asarray(v, dtype=object) for v in a])
    out = np.empty(a[0].shape, dtype=object)
    o = out.reshape(-1)
    fl = [v.reshape(-1) for v in a]
    for i in range(o.size):
        o[i] = f(*[int(v[i]) for v in fl])
    return o.reshape(a[0].shape)


def vals(d, n):
    if n == 1:
        return np.asarray(gen.int_array(dict(d), 16) % 2, dtype=object)
    return gen.int_array(d, n)


def expect(t, want, n, what, scaled=False):
    if P.nbits_of(t) != n:
        raise Violation("%s: result has %d bits, expected %d" % (what, P.nbits_of(t), n))
    exact(recon(t, what=what), P.wrapn(np.asarray(want, dtype=object), n), what)
    r = t.reveal() if hasattr(t, "reveal") else t
    exact(np.asarray(P.ints(r.unwrapped[0]), dtype=object), P.wrapn(np.asarray(want, dtype=object), n),
          what + " revealed")
    if bool(t.is_scaled) != scaled:
        raise Violation("%s: result marked is_scaled=%s" % (what, t.is_scaled))


# ---------------------------------------------------------------- bitwise operations
BOPS = ["xor", "and", "or", "not", "shl", "shr", "lshr", "xor_pub", "pub_xor", "and_pub", "pub_and",
        "xor_c", "and_c", "xor_pp", "select", "select_pub", "chain", "shr_pub"]
BITS = ["bit_gather", "bit_split", "bits", "bit_extract", "cast", "bit_reverse", "xor_indices",
        "carry", "carry", "carry_pub", "gather_pub", "split_pub", "cast_pub"]


@st.composite
def bool_case(draw):
    n = draw(st.sampled_from(WIDTHS))
    op = draw(st.sampled_from(BOPS + BITS))
    a, b = draw(gen.bcast_pair(3, 3))
    kinds = ("edge", "uniform", "pow2", "small")
    return {"prec": draw(st.sampled_from(["l", "l", "h"])), "n": n, "op": op,
            "x": draw(gen.ints_desc(a, kinds)), "y": draw(gen.ints_desc(b, kinds)),
            "k": draw(st.integers(0, 127)), "m": draw(st.integers(0, 7)),
            "multi": draw(st.integers(0, 7)) == 0, "how": draw(st.sampled_from(["var", "tensor", "input"])),
            "scaled": False}


def bgather(v, n, start, stride):
    u, out, i = v % (1 << n), 0, 0
    for d in range(start, n, stride):
        out |= ((u >> d) & 1) << i
        i += 1
    return out


def brev(v, n):
    u = v % (1 << n)
    return int(format(u, "0%db" % n)[::-1], 2)


def xind(v, n):
    u, out, i = v % (1 << n), 0, 0
    while u:
        if u & 1:
            out ^= i
        u >>= 1
        i += 1
    return out


def carry_ref(a, b, n, pos):
    m = (1 << (pos + 1)) - 1
    return ((a % (1 << n) & m) + (b % (1 << n) & m)) >> (pos + 1)


def bool_check(c):
    n, op, k = c["n"], c["op"], c["k"]
    p = P.aby3(c["prec"], multi=c["multi"])
    x, y = vals(c["x"], n), vals(c["y"], n)
    mkp = lambda v: P.private(p, v, False, BOOL, n, c["how"] if n != 128 else "var")
    pub = lambda v: P.public(p, v, False, n)
    X = mkp(x)
    s = k % n
    what = "%s/%d" % (op, n)
    if op in ("xor", "and", "or", "xor_pub", "pub_xor", "and_pub", "pub_and", "xor_pp"):
        f = {"x": lambda a, b: a ^ b, "a": lambda a, b: a & b, "o": lambda a, b: a | b,
             "p": lambda a, b: a ^ b if "xor" in op else a & b}[op[0]]
        w = vec(f, x, y)
        if op == "xor_pp":
            t = pub(x) ^ pub(y)
        elif op.endswith("_pub"):
            t = X ^ pub(y) if "xor" in op else X & pub(y)
        elif op.startswith("pub_"):
            t = pub(y) ^ X if "xor" in op else pub(y) & X
        else:
            Y = mkp(y)
            t = {"xor": lambda: X ^ Y, "and": lambda: X & Y, "or": lambda: X | Y}[op]()
        expect(t, w, n, what)
    elif op in ("xor_c", "and_c"):
        v = (0 if k % 2 else 1) if n == 1 else [0, 1, -1, 5, k][c["m"] % 5]
        w = vec(lambda a: a ^ v if op == "xor_c" else a & v, x)
        expect(X ^ v if op == "xor_c" else X & v, w, n, what)
    elif op == "not":
        expect(~X, vec(lambda a: (a ^ 1) if n == 1 else ~a, x), n, what)
        expect(~~X, x, n, what + " twice")
    elif op in ("shl", "shr", "lshr"):
        if n == 1:
            return False
        if op == "shl":
            expect(X << s, vec(lambda a: a << s, x), n, what)
        elif op == "shr":
            expect(X >> s, vec(lambda a: a >> s, x), n, what)
        else:
            expect(X.logical_rshift(s), vec(lambda a: (a % (1 << n)) >> s, x), n, what)
    elif op == "shr_pub":
        if n == 1:
            return False
        expect(pub(x) >> s, vec(lambda a: a >> s, x), n, what)
    elif op in ("select", "select_pub"):
        bit = vals(dict(c["y"], s=c["y"]["s"] + 1), 1)
        z = vals(dict(c["x"], s=c["x"]["s"] + 7), n)
        if n != 1:
            # the selector of boolean-shared words is a full-width mask
            B = P.private(p, vec(lambda b: -b, bit), False, BOOL, n)
        else:
            B = P.private(p, bit, False, BOOL, 1)
        Z = pub(z) if op == "select_pub" else mkp(z)
        try:
            bs = np.broadcast_shapes(x.shape, bit.shape)
        except ValueError:
            return False
        expect(p.select(B, X, Z), vec(lambda b, a, d: d if b else a, np.broadcast_to(bit, bs),
                                      np.broadcast_to(x, bs), np.broadcast_to(z, bs)), n, what)
    elif op == "chain":
        Y = mkp(y)
        t = ((X ^ Y) & X) | ~(Y & X)
        m = 1 if n == 1 else -1
        expect(t, vec(lambda a, b: ((a ^ b) & a) | ((b & a) ^ m), x, y), n, what)
    elif op in ("bit_gather", "gather_pub"):
        if n == 1:
            return False
        start, stride = k % n, 1 + c["m"]
        T = X if op == "bit_gather" else pub(x)
        expect(p.bit_gather(T, start, stride), vec(lambda a: bgather(a, n, start, stride), x), n, what)
    elif op in ("bit_split", "split_pub"):
        if n == 1:
            return False
        stride = 1 << (c["m"] % 4)
        T = X if op == "bit_split" else pub(x)
        w = np.stack([vec(lambda a: bgather(a, n, j, stride), x) for j in range(stride)])
        expect(p.bit_split_and_gather(T, stride), w, n, what)
    elif op == "bits":
        if n == 1:
            return False
        size = None if c["m"] < 3 else 1 + k % n
        w = vec(lambda a, j: (a >> j) & 1, x[..., None], np.arange(size or n))
        expect(p.bits(X, bitsize=size), w, 1, what + " bitsize=%s" % size)
    elif op == "bit_extract":
        if n == 1:
            return False
        expect(p.bit_extract(X, s), vec(lambda a: (a >> s) & 1, x), 1, what + "[%d]" % s)
    elif op in ("cast", "cast_pub"):
        m = [8, 16, 32, 64, 128, 1][c["m"] % 6]
        if m == 1 and n != 1:
            x = np.asarray(x % 2, dtype=object)  # only bits convert to booleans
            b1 = P.private(p, x, False, BOOL, 1)
            X = b1.cast(P.fact(n)) if op == "cast" else pub(x)
        elif op == "cast_pub":
            X = pub(x)
        expect(X.cast(P.fact(m)), x, m, what + "->%d" % m)
    elif op == "bit_reverse":
        if n not in (64, 128):
            return False
        expect(p.bit_reverse(X), vec(lambda a: brev(a, n), x), n, what)
    elif op == "xor_indices":
        if n not in (64, 128):
            return False
        expect(p.xor_indices(X), vec(lambda a: xind(a, n), x), n, what)
    elif op in ("carry", "carry_pub"):
        if n == 1:
            return False
        pos = None if c["m"] == 0 else k % n
        q = n - 1 if pos is None else pos
        Y = mkp(y) if op == "carry" else pub(y)
        try:
            t = p.carry(X, Y, pos) if c["m"] % 2 or op == "carry" else p.carry(Y, X, pos)
        except Exception:
            raise
        nb = P.nbits_of(t)
        expect(t, vec(lambda a, b: carry_ref(a, b, n, q), x, y), nb, what + " pos=%s" % pos)
    else:
        raise AssertionError(op)
    return x.size > 0 and bool(np.any(x != 0))


# ------------------------------------------------------------ circuits and conversion
COPS = ["a2b", "a2b", "b2a", "b2a", "b2a_nbits", "b2a_single", "mul_ab", "mul_ab", "mul_ab_pub",
        "bit_extract", "bit_extract", "msb", "ppa", "ppa", "ppa_n", "round", "pow2bits", "cast_arith",
        "lshift_arith"]


@st.composite
def conv_case(draw):
    a, b = draw(gen.bcast_pair(3, 3))
    kinds = ("edge", "uniform", "pow2", "small")
    return {"prec": draw(st.sampled_from(["l", "l", "h"])), "op": draw(st.sampled_from(COPS)),
            "x": draw(gen.ints_desc(a, kinds)), "y": draw(gen.ints_desc(b, kinds)),
            "k": draw(st.integers(0, 127)), "m": draw(st.integers(0, 7)),
            "scaled": draw(st.booleans()), "debug": draw(st.booleans()),
            "multi": draw(st.integers(0, 7)) == 0}


def mark(t, scaled):
    t.is_scaled = scaled
    return t


def conv_check(c):
    p = P.aby3(c["prec"], debug=c["debug"], multi=c["multi"])
    n, op, k, sc = p.default_nbits, c["op"], c["k"], c["scaled"]
    x, y = gen.int_array(c["x"], n), gen.int_array(c["y"], n)
    s = k % n
    A = lambda v: mark(P.private(p, v, False, ARITH), sc)
    B = lambda v: mark(P.private(p, v, False, BOOL), sc)
    what = "%s/%d" % (op, n)
    if op == "a2b":
        nb = None if c["m"] < 4 else 1 + s
        t = p.a2b(A(x), nb)
        if t.share_type != BOOL:
            raise Violation("a2b result is not boolean-shared")
        w = x if nb is None else np.asarray(x % (1 << nb), dtype=object)
        expect(t, w, n, what + " nbits=%s" % nb, sc)
    elif op == "b2a":
        t = p.b2a(B(x))
        if t.share_type != ARITH:
            raise Violation("b2a result is not arithmetic-shared")
        expect(t, x, n, what, sc)
    elif op == "b2a_nbits":
        nb = [1 + s, n, None][c["m"] % 3]
        t = p.b2a(B(x), nbits=nb, method="single")
        w = x if nb in (None, n) else np.asarray(x % (1 << nb), dtype=object)
        expect(t, w, n, what + " nbits=%s" % nb, sc)
    elif op == "b2a_single":
        b = np.asarray(x % 2, dtype=object)
        expect(p.b2a_single(P.private(p, b, False, BOOL, 1)), b, n, what)
    elif op in ("mul_ab", "mul_ab_pub"):
        b = np.asarray(y % 2, dtype=object)
        Y = P.private(p, b, False, BOOL, 1)
        X = A(x) if op == "mul_ab" else mark(P.public(p, x, False), sc)
        expect(p.mul_ab(X, Y), x * b, n, what, sc)
    elif op == "bit_extract":
        expect(p.bit_extract(A(x), s), vec(lambda a: (a >> s) & 1, x), 1, what + "[%d]" % s)
    elif op == "msb":
        expect(p.msb(A(x)), vec(lambda a: int(a < 0), x), 1, what)
        expect(p.msb(B(x)), vec(lambda a: int(a < 0), x), 1, what + " boolean")
    elif op in ("ppa", "ppa_n"):
        top = "sklansky" if c["m"] % 2 else "kogge_stone"
        nb = None if op == "ppa" else 1 + s
        t = p.ppa(B(x), B(y), nb, top)
        if nb is None:
            expect(t, x + y, n, what + " " + top, sc)
        else:
            # only the low nb bits are computed; the others are unspecified for sklansky
            got = recon(t, what=what)
            m = (1 << nb) - 1
            exact(vec(lambda a: a & m, got), vec(lambda a: a & m, np.asarray(x + y)), what + " " + top)
    elif op == "round":
        t = p.a2b(p.b2a(B(x)))
        expect(t, x, n, what, sc)
        t = p.b2a(p.a2b(A(x)))
        expect(t, x, n, what, sc)
        t = p.b2a(B(x)) + p.b2a(p.a2b(A(x)))
        expect(t, x + x, n, what + " sum", sc)
    elif op == "pow2bits":
        nb = 1 + c["m"] % 5
        v = np.asarray(x % (1 << nb), dtype=object)
        bits = vec(lambda a, j: (a >> j) & 1, v[..., None], np.arange(nb))
        t = p.pow2_from_bits(P.private(p, bits, False, BOOL, 1))
        expect(t, vec(lambda a: 1 << a, v), n, what)
    elif op == "cast_arith":
        m = [8, 16, 32, n][c["m"] % 4]
        expect(A(x).cast(P.fact(m)), x, m, what + "->%d" % m, sc)
    elif op == "lshift_arith":
        expect(A(x) << s, x * (1 << s), n, what, sc)
    else:
        raise AssertionError(op)
    return x.size > 0 and bool(np.any(x != 0))


FAMILIES = [
    Family("bool_ops", bool_case, bool_check, 1600, shards=8, cost=1.0,
           rule="operand not all zero, any width/op/privacy mix"),
    Family("conversion", conv_case, conv_check, 1200, shards=8, cost=3.0,
           rule="operand not all zero"),
]
