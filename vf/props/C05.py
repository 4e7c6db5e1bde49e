"""Rescaling in the share domain vs exact integer quotients; scaling up is exact."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, prot as P
from ..core import Family, Violation
from ..prot import exact, recon, within

METHODS = ["heuristic", "default", "local", "cheetah", "secureq8", "public", "pow2", "div", "lshift", "mulk"]


@st.composite
def case(draw):
    return {"prec": draw(st.sampled_from(P.PRECS)), "m": draw(st.sampled_from(METHODS)),
            "shape": draw(gen.shapes(0, 3, 5)), "s": draw(gen.SEED),
            "kind": draw(st.sampled_from(["edge", "multiple", "magnitude", "small", "uniform"])),
            "amount": draw(st.integers(1, 126)), "scaled": draw(st.booleans()),
            "deflt": draw(st.integers(0, 4)) == 0,
            "how": draw(st.sampled_from(["var", "tensor", "input"])),
            "debug": draw(st.booleans()), "multi": draw(st.integers(0, 7)) == 0}


def values(c, lo, hi, amount):
    """Integers in [lo, hi], biased to the ends, to multiples of 2^amount and to zero."""
    rng = np.random.Generator(np.random.PCG64(c["s"]))
    out = np.empty(c["shape"], dtype=object)
    o = out.reshape(-1)

    def big(n):
        return int.from_bytes(rng.bytes(20), "little") % n

    for i in range(o.size):
        k = c["kind"]
        if k == "edge":
            v = [lo, lo + 1, hi, hi - 1, 0, 1, -1, lo // 2, hi // 2][big(9)]
        elif k == "multiple":
            v = (big(2 * (hi >> amount) + 3) - (hi >> amount) - 1 << amount) + big(3) - 1
        elif k == "magnitude":
            v = big(1 << big(hi.bit_length()) + 1) * (1 if big(2) else -1)
        elif k == "small":
            v = big(65) - 32
        else:
            v = lo + big(hi - lo + 1)
        o[i] = max(lo, min(hi, v))
    return out


def mark(t, scaled, what):
    if bool(t.is_scaled) != bool(scaled):
        raise Violation("%s: scale mark %s" % (what, t.is_scaled))


def check(c):
    p = P.aby3(c["prec"], debug=c["debug"], multi=c["multi"])
    n, f, m, sc = p.default_nbits, P.fbits(p), c["m"], c["scaled"]
    scale = f if sc else 0
    top = n - 2 - (scale if m in ("heuristic", "default", "pow2", "div") else 0)
    amt = f if c["deflt"] or m == "default" else 1 + (c["amount"] - 1) % top
    what = "%s/%d by %d%s" % (m, n, amt, " scaled" if sc else "")
    how = c["how"] if n != 128 else "var"

    def mk(v):
        t = P.private(p, v, False, how=how)
        t.is_scaled = sc
        return t

    b = n - 2
    if m in ("heuristic", "default", "pow2", "div"):
        v = values(c, -(1 << b), (1 << b) - 1, amt)
        X = mk(v)
        if m == "heuristic":
            Y = p.truncate(X, amount=None if amt == f else amt)
        elif m == "default":
            Y = X.truncate() if c["s"] % 2 else p.truncate(X)
        elif m == "pow2":
            Y = p.mul_pow2(X, -amt)
        else:
            if amt > 62:
                amt = 62
            k = 1 << amt
            Y = p.div(X, float(k)) if c["s"] % 2 else X / k
        q = v >> amt
        within(recon(Y, what=what), q, q + 1, what)
        mark(Y, sc, what)
    elif m in ("cheetah", "secureq8"):
        v = values(c, 0, (1 << (n - 1)) - 1, amt)
        Y = p.truncate_msb0(mk(v), method=m, amount=None if amt == f and c["deflt"] else amt)
        q = v >> amt
        d = 1 if m == "cheetah" else 0  # the carry of the low parts is lost, not gained
        within(recon(Y, what=what), q - d, q + 1 - d, what)
        mark(Y, sc, what)
    elif m == "local":
        b = n - 24
        v = values(c, -(1 << b), (1 << b) - 1, amt)
        Y = p.truncate(mk(v), method="local", amount=None if amt == f else amt)
        q = v >> amt
        within(recon(Y, what=what), q - 1, q + 2, what, prob=True)
        mark(Y, sc, what)
    elif m == "public":
        v = values(c, -(1 << (n - 1)), (1 << (n - 1)) - 1, amt)
        X = P.public(p, v, False)
        X.is_scaled = sc
        Y = p.truncate(X, method="local", amount=None if amt == f else amt)
        exact(recon(Y, what=what), v >> amt, what)
        mark(Y, sc, what)
    elif m in ("lshift", "mulk"):
        amt = min(amt, n - 2)
        v = values(c, -(1 << (n - 1 - amt)), (1 << (n - 1 - amt)) - 1, 1)
        X = mk(v)
        if m == "lshift":
            Y = p.mul_pow2(X, amt) if c["s"] % 2 else X << amt
        else:
            amt2 = min(amt, 60)
            v = v % (1 << (n - amt2 - 1))
            amt = amt2
            Y = mk(v) * (1 << amt)
        exact(recon(Y, what=what), v << amt, what)
        mark(Y, sc, what)
    return bool(np.any(v < 0)) or bool(np.any((v >> amt << amt) != v))


CFGS = ["fixed64", "fixed64_ni", "fixed100", "fixed100_ni"]


@st.composite
def pond_case(draw):
    return {"cfg": draw(st.sampled_from(CFGS)), "kind": draw(st.sampled_from(["pond", "securenn"])),
            "t": draw(st.sampled_from(["private", "private", "public", "masked"])),
            "shape": draw(gen.shapes(0, 3, 5)), "s": draw(gen.SEED),
            "kind2": draw(st.sampled_from(["edge", "multiple", "magnitude", "small", "uniform"])),
            "debug": draw(st.booleans()), "multi": draw(st.integers(0, 7)) == 0}


def pond_check(c):
    p = P.two_party(c["kind"], c["cfg"], debug=c["debug"], multi=c["multi"])
    fc = p.fixedpoint_config
    B, s = fc.bound_double_precision, fc.scaling_factor
    cc = dict(c, kind=c["kind2"])
    v = values(cc, -B, B - 1, s.bit_length() - 1)
    if c["kind2"] == "multiple":
        v = np.asarray((v // s) * s + np.asarray(v % 3 - 1), dtype=object).reshape(v.shape)
        v = np.maximum(np.minimum(v, B - 1), -B)
    a = np.asarray(v, dtype=object).astype(np.int64)
    what = "truncate %s %s %s" % (c["kind"], c["cfg"], c["t"])
    q = np.asarray(v // s, dtype=object)
    if c["t"] == "public":
        X = p.define_public_variable(a, apply_scaling=False)
        X.is_scaled = True
        Y = p.truncate(X)
        exact(P.recon2(Y, what), q, what)
    else:
        X = p.define_private_variable(a, apply_scaling=False)
        X.is_scaled = True
        if c["t"] == "masked":
            X = p.mask(X)
        Y = X.truncate() if c["s"] % 2 else p.truncate(X)
        ni = fc.use_noninteractive_truncation
        within(P.recon2(Y, what), q - (1 if ni else 0), q + 1, what, prob=ni)
    mark(Y, True, what)
    return bool(np.any(v < 0)) or bool(np.any(v % s != 0))


FAMILIES = [
    Family("aby3", case, check, 5000, shards=5, cost=1.0,
           rule="some value negative or not a multiple of the divisor"),
    Family("two_party", pond_case, pond_check, 2400, shards=3, cost=0.7,
           rule="some value negative or not a multiple of the divisor"),
]
