"""ABY3 comparisons, equality, sign, maximum, rectifier and selection vs plaintext."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, prot as P
from ..core import Family, Violation, count
from ..prot import ARITH, BOOL, exact, recon

OPS = ["lt", "le", "gt", "ge", "eq", "eq0", "msb", "max", "relu", "relu_cmp", "select", "select_pub",
       "cmp_swap", "method_cmp", "const_cmp", "composed"]


@st.composite
def case(draw):
    a, b = draw(gen.bcast_pair(3, 4))
    scaled = draw(st.booleans())
    return {"prec": draw(st.sampled_from(P.PRECS)), "op": draw(st.sampled_from(OPS)),
            "x": draw(gen.ints_desc(a, ("edge", "uniform", "pow2", "small"))),
            "sh": b, "rel": draw(st.sampled_from(["near", "near", "equal", "free", "neg"])),
            "s": draw(gen.SEED), "scaled": scaled,
            "mix": draw(st.sampled_from(["ss", "ss", "sp", "ps"])),
            "how": draw(st.sampled_from(["var", "tensor", "input"])),
            "debug": draw(st.booleans()), "multi": draw(st.integers(0, 7)) == 0}


def operands(c, n):
    """x, y with |x|, |y| < 2^(n-2), biased to equal and adjacent values."""
    x = gen.int_array(c["x"], n - 1)
    rng = np.random.Generator(np.random.PCG64(c["s"]))
    out = np.empty(c["sh"], dtype=object)
    o = out.reshape(-1)
    xs = np.asarray(x, dtype=object).reshape(-1)
    lo, hi = -(1 << (n - 2)), (1 << (n - 2)) - 1
    bx = x
    try:
        bx = np.broadcast_to(x, c["sh"]).reshape(-1)
    except ValueError:
        bx = np.asarray([xs[i % max(1, xs.size)] for i in range(o.size)], dtype=object)
    for i in range(o.size):
        v = int(bx[i])
        r = c["rel"]
        if r == "near":
            v += int(rng.integers(-1, 2))
        elif r == "neg":
            v = -v + int(rng.integers(-1, 2))
        elif r == "free":
            v = int(rng.integers(-2**40, 2**40)) << int(rng.integers(0, n - 42))
        o[i] = max(lo, min(hi, v))
    return x, o.reshape(c["sh"])


def mk(p, v, c, pub):
    n = p.default_nbits
    t = P.public(p, v, False) if pub else P.private(p, v, False, how=c["how"] if n != 128 else "var")
    t.is_scaled = c["scaled"]
    return t


def bit(t, want, what):
    want = np.asarray(want, dtype=bool)
    if t.share_type != BOOL:
        raise Violation("%s: not a boolean sharing" % what)
    if P.nbits_of(t) != 1:
        raise Violation("%s: not single bits" % what)
    if t.is_scaled:
        raise Violation("%s: bit marked scaled" % what)
    exact(recon(t, what=what), gen.obj(want.astype(int)), what)
    r = np.asarray(t.reveal().to_native())
    if r.shape != want.shape or not np.array_equal(r.astype(bool), want):
        raise Violation("%s: revealed %s" % (what, gen.first_diff(r, want)))


def word(t, want, what, scaled):
    exact(recon(t, what=what), want, what)
    if bool(t.is_scaled) != scaled:
        raise Violation("%s: scale mark %s" % (what, t.is_scaled))


def check(c):
    p = P.aby3(c["prec"], debug=c["debug"], multi=c["multi"])
    n, op, sc = p.default_nbits, c["op"], c["scaled"]
    x, y = operands(c, n)
    mix = c["mix"]
    bs = np.broadcast_shapes(x.shape, y.shape)
    if mix != "ss" and x.shape != y.shape:
        # a private operand smaller than the public one is refused by +/-
        big_private = (x.shape if mix == "sp" else y.shape) == bs
        if not big_private:
            mix = "ss"
    X, Y = mk(p, x, c, mix == "ps"), mk(p, y, c, mix == "sp")
    what = "%s/%d %s" % (op, n, mix)
    nt = bool(np.any(x == y)) or bool(np.any(abs(x - y) == 1))
    if op in ("lt", "le", "gt", "ge"):
        f = {"lt": p.less_than, "le": p.less_equal, "gt": p.greater_than, "ge": p.greater_equal}[op]
        w = {"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[op]
        bit(f(X, Y), w, what)
    elif op == "method_cmp":
        k = c["s"] % 4
        t = [lambda: X < Y, lambda: X <= Y, lambda: X > Y, lambda: X >= Y][k]()
        bit(t, [x < y, x <= y, x > y, x >= y][k], what + " <<=>>="[k])
    elif op == "eq":
        bit(p.equal(X, Y), x == y, what)
    elif op == "eq0":
        d = x - y
        D = mk(p, d, c, False)
        bit(p.equal_zero(D), d == 0, what)
        bit(p.equal_zero(mk(p, x, c, False)), x == 0, what)
        return bool(np.any(d == 0)) or bool(np.any(x == 0))
    elif op == "msb":
        X = mk(p, x, c, False)
        bit(p.msb(X), x < 0, what)
        return bool(np.any(x < 0))
    elif op == "max":
        if mix != "ss" and x.shape != y.shape:
            return False
        word(p.maximum(X, Y), np.maximum(x, y), what, sc)
    elif op == "cmp_swap":
        if x.shape != y.shape:
            return False
        a, b = p.cmp_swap(X, Y)
        word(a, np.minimum(x, y), what + " min", sc)
        word(b, np.maximum(x, y), what + " max", sc)
    elif op in ("relu", "relu_cmp"):
        X = mk(p, x, c, False)
        if op == "relu":
            word(p.relu(X), np.maximum(x, 0), what, sc)
        else:
            r, b = p.relu_with_cmp(X)
            word(r, np.maximum(x, 0), what, sc)
            got = recon(b, what=what)
            z = np.asarray(x, dtype=object)
            # at zero either side of the step is a valid (sub)gradient
            ok = (got == (z > 0)) | (z == 0)
            if got.shape != z.shape or not bool(np.all(ok)):
                raise Violation("%s: comparison bit %s for %s" % (what, got.tolist(), z.tolist()))
        return bool(np.any(x < 0))
    elif op in ("select", "select_pub"):
        rng = np.random.Generator(np.random.PCG64(c["s"] + 1))
        b = gen.obj(rng.integers(0, 2, size=y.shape))
        z = np.asarray(-x + 3, dtype=object)
        B = P.private(p, b, False, BOOL, 1)
        Z = mk(p, z, c, op == "select_pub")
        t = p.select(B, mk(p, x, c, False), Z)
        word(t, np.where(np.broadcast_to(b, bs).astype(bool), np.broadcast_to(z, bs),
                         np.broadcast_to(x, bs)), what, sc)
        return True
    elif op == "const_cmp":
        f = P.fbits(p) if sc else 0
        k = [0, 1, -1, 2, 0.5, -0.25][c["s"] % 6] if sc else [0, 1, -1, 7, 12345][c["s"] % 5]
        kk = int(k * (1 << f))
        v = np.asarray([kk + int(t) % 3 - 1 for t in x.reshape(-1)], dtype=object).reshape(x.shape)
        V = mk(p, v, c, False)
        j = (c["s"] // 7) % 4
        bit([lambda: V < k, lambda: V <= k, lambda: V > k, lambda: V >= k][j](),
            [v < kk, v <= kk, v > kk, v >= kk][j], what + str(k))
        bit(p.equal(V, k), v == kk, what + " equal %s" % k)
        return True
    elif op == "composed":
        # comparison bits feed further protocol steps
        X, Y = mk(p, x, c, False), mk(p, y, c, False)
        lt = p.less_than(X, Y)
        eq = p.equal(X, Y)
        bit(lt | eq, x <= y, what)
        bit(~lt, x >= y, what)
        bit(lt & eq, np.zeros(bs, dtype=bool), what)
        if x.shape == y.shape:
            word(p.select(lt, X, Y), np.where(np.asarray(x < y, dtype=bool), y, x), what, sc)
    else:
        raise AssertionError(op)
    return nt


FAMILIES = [
    Family("compare", case, check, 1600, shards=8, cost=1.0,
           rule="some operand pair equal or adjacent (comparisons), some negative (sign, relu)"),
]
