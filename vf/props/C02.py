"""ABY3 arithmetic programs vs exact integer arithmetic on the shared ring values."""
import math

import numpy as np
import tensorflow as tf
from hypothesis import strategies as st

from .. import gen, prot as P
from ..core import Family, Violation, count
from ..prot import exact, recon, within

BIN = ["add", "sub", "mul", "mul", "mul_trunc2"]
CONST = ["addc", "raddc", "subc", "rsubc", "mulc", "rmulc", "divc", "pow2"]
UN = ["neg", "square", "sum", "addn", "pow", "poly", "prod", "lshift", "reveal", "divp",
      "topriv", "multipoly"]
NUM = [0, 1, 2, 3, -1, -2, 0.5, 0.25, -0.5, 1.5, -1.75, 0.3, -0.7, 7.125, 10, 1e-3]


def floor_div(v, f):
    return np.asarray(np.asarray(v, dtype=object) >> f, dtype=object)


def shp(a):
    return np.asarray(a, dtype=object)


@st.composite
def programs(draw):
    base = draw(gen.shapes(0, 3, 3))
    n_in = draw(st.integers(1, 4))
    ins = []
    for _ in range(n_in):
        k = draw(st.integers(0, len(base))) if draw(st.integers(0, 3)) == 0 else 0
        sh = base[k:]
        if draw(st.integers(0, 5)) == 0:
            sh = [1 if draw(st.booleans()) else d for d in sh]
        scaled = draw(st.sampled_from([True, True, True, False]))
        ins.append({
            "pub": draw(st.sampled_from([False, False, False, True])),
            "how": draw(st.sampled_from(["var", "tensor", "input"])),
            "scaled": scaled,
            "v": draw(gen.reals_desc(sh, -60, 60) if scaled else gen.ints_desc(sh)),
        })
    steps = draw(st.lists(st.tuples(
        st.sampled_from(BIN + CONST + UN), st.integers(0, 7), st.integers(0, 7),
        st.integers(0, 15), st.booleans()), min_size=1, max_size=6))
    return {"prec": draw(st.sampled_from(P.PRECS)), "debug": draw(st.booleans()),
            "multi": draw(st.integers(0, 5)) == 0, "in": ins, "steps": [list(s) for s in steps]}


class Reg:
    def __init__(self, t, v, pub):
        self.t, self.v, self.pub = t, v, pub
        self.scaled = t.is_scaled


def make(p, d):
    f, n = P.fbits(p), p.default_nbits
    if d["scaled"]:
        a = gen.real_array(d["v"])
        v = P.enc(f, a)
    else:
        a = v = gen.int_array(d["v"], n)
    if d["pub"]:
        t = P.public(p, a, d["scaled"], how="const" if d["how"] != "var" else "var")
    else:
        t = P.private(p, a, d["scaled"], how=d["how"])
    got = recon(t, what="input")
    exact(got, v, "input sharing")
    return Reg(t, got, d["pub"])


def bounds(a, b, n, both_scaled, f):
    """Interval of the ring results of a*b (a, b intervals given as lists of arrays)."""
    prods = [x * y for x in a for y in b]
    lo = prods[0]
    hi = prods[0]
    for q in prods[1:]:
        lo, hi = np.minimum(lo, q), np.maximum(hi, q)
    if both_scaled:
        return floor_div(lo, f), floor_div(hi, f) + 1
    return lo, hi


def mag(v):
    v = np.asarray(v, dtype=object).reshape(-1)
    return max([abs(int(x)) for x in v], default=0)


def fits(v, n, slack=3):
    return mag(v) < (1 << (n - slack))


def cenc(c, f):
    t = c * (1 << f)
    return [shp(math.floor(t)), shp(math.ceil(t))]


def numeric(p, r, want, tol, what):
    """Compare as reals (for composed ops), tolerance in ulps."""
    f = P.fbits(p) if r.is_scaled else 0
    got = recon(r, what=what)
    w = np.asarray(want, dtype=object)
    got = np.asarray(got, dtype=object)
    if got.shape != w.shape:
        raise Violation("%s: shape %s, expected %s" % (what, got.shape, w.shape))
    tol = np.broadcast_to(np.asarray(tol, dtype=object), w.shape)
    within(got, w - tol, w + tol, what)
    return got


def step(p, regs, s):
    """One operation; returns a Reg, or None when the step is not applicable."""
    op, i, j, k, swap = s
    f, n = P.fbits(p), p.default_nbits
    x = regs[i % len(regs)]
    y = regs[j % len(regs)]
    what = "%s(%s%s)" % (op, "pub" if x.pub else "priv", "" if op not in BIN else
                         ",pub" if y.pub else ",priv")
    if op in BIN:
        try:
            bs = np.broadcast_shapes(x.v.shape, y.v.shape)
        except ValueError:
            return None
        if op in ("add", "sub"):
            for a, b in ((x, y), (y, x)):
                # a smaller private operand next to a larger public one is refused
                if a.pub and not b.pub and b.v.shape != bs:
                    return None
            if x.scaled != y.scaled:
                try:
                    x.t + y.t if op == "add" else x.t - y.t
                except (AssertionError, ValueError, TypeError):
                    count("mixed scale refused")
                    return None
                raise Violation("%s accepted operands of different scale" % what)
            t = x.t + y.t if op == "add" else x.t - y.t
            w = x.v + y.v if op == "add" else x.v - y.v
            got = recon(t, what=what)
            exact(got, gen.wrap(w, n), what)
        else:
            if op == "mul_trunc2":
                if x.pub or y.pub or not (x.scaled and y.scaled):
                    return None
                if not fits(x.v * y.v, n, 24):
                    return None
                t = p.mul_trunc2(x.t, y.t)
                lo = floor_div(x.v * y.v, f)
                got = recon(t, what=what)
                within(got, lo - 1, lo + 1, what, prob=True)
            else:
                both = x.scaled and y.scaled
                if both and not fits(x.v * y.v, n):
                    return None
                t = x.t * y.t
                got = recon(t, what=what)
                if both:
                    lo = floor_div(x.v * y.v, f)
                    within(got, lo, lo + (0 if x.pub and y.pub else 1), what)
                else:
                    exact(got, gen.wrap(x.v * y.v, n), what)
        if t.is_scaled != ((x.scaled or y.scaled) if "mul" in op else x.scaled):
            raise Violation("%s: result marked %s" % (what, t.is_scaled))
        return Reg(t, got, x.pub and y.pub)
    if op in ("addc", "raddc", "subc", "rsubc"):
        c = NUM[k]
        if not x.scaled:
            c = int(c)
        if swap and op in ("addc", "subc"):
            cc = np.full(x.v.shape, float(c)) if x.scaled else np.full(x.v.shape, c)
        else:
            cc = c
        t = {"addc": lambda: x.t + cc, "raddc": lambda: cc + x.t,
             "subc": lambda: x.t - cc, "rsubc": lambda: cc - x.t}[op]()
        e = cenc(c, f if x.scaled else 0)
        sgn = -1 if op in ("subc",) else 1
        a = -x.v if op == "rsubc" else x.v
        lo = np.minimum(a + sgn * e[0], a + sgn * e[1])
        hi = np.maximum(a + sgn * e[0], a + sgn * e[1])
        got = recon(t, what=what)
        if x.scaled and fits(lo, n, 1) and fits(hi, n, 1):
            within(got, lo, hi, "%s %s" % (what, c))
        else:
            if not np.all(e[0] == e[1]):
                return None
            exact(got, gen.wrap(lo, n), "%s %s" % (what, c))
        return Reg(t, got, x.pub)
    if op in ("mulc", "rmulc"):
        c = NUM[k]
        if not x.scaled:
            c = int(c)
        p2 = c > 0 and math.log2(c) == int(math.log2(c)) if c > 0 else False
        if p2 and x.pub:
            return None  # public values offer no shift: refused
        cc = np.array(float(c)) if swap and x.scaled and op == "mulc" else c
        if swap and x.scaled and op == "mulc" and p2:
            p2 = False
        e = cenc(c, f if x.scaled else 0)
        if x.scaled:
            if not fits(x.v * e[1], n) or not fits(x.v * e[0], n):
                return None
        t = x.t * cc if op == "mulc" else cc * x.t
        got = recon(t, what=what)
        if p2 and c >= 1:
            exact(got, gen.wrap(x.v * int(c), n), "%s %s" % (what, c))
        elif p2:
            if not fits(x.v, n, 2):
                return None
            lo = floor_div(x.v, -int(math.log2(c)))
            within(got, lo, lo + 1, "%s %s" % (what, c))
        elif not x.scaled:
            exact(got, gen.wrap(x.v * c, n), "%s %s" % (what, c))
        else:
            lo, hi = bounds([x.v], e, n, True, f)
            within(got, lo, hi, "%s %s" % (what, c))
        return Reg(t, got, x.pub)
    if op == "divc":
        c = NUM[k]
        if c == 0 or not x.scaled or x.pub:
            return None
        cc = np.full(x.v.shape, float(c)) if swap else c
        e = cenc(1.0 / c, f)
        if not fits(x.v * e[1], n) or not fits(x.v, n):
            return None
        if c > 0 and math.log2(c) == int(math.log2(c)) and not swap:
            e = [shp(int((1 << f) / c))] * 2
        t = x.t / cc
        got = recon(t, what=what)
        lo, hi = bounds([x.v], e, n, True, f)
        within(got, lo, hi, "%s %s" % (what, c))
        return Reg(t, got, False)
    if op == "divp":
        if not x.scaled or x.pub:
            return None
        c = [2.0, -3.0, 0.5, 8.0][k % 4]
        e = cenc(1.0 / c, f)
        if not fits(x.v * e[1], n):
            return None
        t = x.t / p.define_constant(np.full(x.v.shape, c))
        got = recon(t, what=what)
        lo, hi = bounds([x.v], e, n, True, f)
        within(got, lo, hi, "%s %s" % (what, c))
        return Reg(t, got, False)
    if op == "pow2":
        e = k % 9 - 4
        if x.pub or (e < 0 and not fits(x.v, n, 2)):
            return None
        t = p.mul_pow2(x.t, e)
        got = recon(t, what=what)
        if e >= 0:
            exact(got, gen.wrap(x.v * (1 << e), n), "%s 2^%d" % (what, e))
        else:
            lo = floor_div(x.v, -e)
            within(got, lo, lo + 1, "%s 2^%d" % (what, e))
        return Reg(t, got, False)
    if op == "neg":
        t = -x.t if swap else p.negative(x.t)
        got = recon(t, what=what)
        exact(got, gen.wrap(-x.v, n), what)
        return Reg(t, got, x.pub)
    if op == "square":
        if x.scaled and not fits(x.v * x.v, n):
            return None
        t = x.t.square()
        got = recon(t, what=what)
        if x.scaled:
            lo = floor_div(x.v * x.v, f)
            within(got, lo, lo + (0 if x.pub else 1), what)
        else:
            exact(got, gen.wrap(x.v * x.v, n), what)
        return Reg(t, got, x.pub)
    if op == "sum":
        nd = x.v.ndim
        ax = None if nd == 0 or k % (nd + 1) == nd else k % (nd + 1) - (nd if k > 7 else 0)
        t = p.reduce_sum(x.t, axis=ax, keepdims=swap)
        got = recon(t, what=what)
        want = np.sum(x.v, axis=ax, keepdims=swap) if x.v.size else np.sum(x.v)
        exact(got, gen.wrap(want, n), "%s axis=%s keepdims=%s" % (what, ax, swap))
        return Reg(t, got, x.pub)
    if op == "addn":
        ys = [x] + [r for r in regs if r.v.shape == x.v.shape and r.scaled == x.scaled][:k % 4]
        t = p.add_n([r.t for r in ys])
        got = recon(t, what=what)
        w = ys[0].v
        for r in ys[1:]:
            w = w + r.v
        exact(got, gen.wrap(w, n), "%s of %d" % (what, len(ys)))
        return Reg(t, got, all(r.pub for r in ys))
    if op == "lshift":
        if x.pub:
            return None
        t = p.lshift(x.t, k % 8)
        got = recon(t, what=what)
        exact(got, gen.wrap(x.v * (1 << (k % 8)), n), what)
        return Reg(t, got, False)
    if op == "reveal":
        if x.pub:
            return None
        r = x.t.reveal()
        got = recon(r, what=what)
        exact(got, x.v, what)
        if x.scaled and mag(x.v) < 2**52:
            P.close(r.to_native().numpy(), np.asarray(x.v / (1 << f), dtype=np.float64),
                    2.0 ** -f * 1e-3, "decoding")
        return Reg(r, got, True)
    if op == "topriv":
        if not x.pub:
            return None
        t = x.t.to_private(P.ARITH)
        got = recon(t, what=what)
        exact(got, x.v, what)
        return Reg(t, got, False)
    if op in ("pow", "poly", "prod", "multipoly"):
        if x.pub or not x.scaled:
            return None
        one = 1 << f
        m = max(mag(x.v) / one, 1.0)
        if op == "pow":
            e = k % 5 + 1
            if m ** e > 2 ** 12:
                return None
            t = p.pow(x.t, e)
            w = np.asarray(x.v ** e, dtype=object)
            w = floor_div(w, f * (e - 1))
            tol = int(2 * e * m ** (e - 1)) + 3
        elif op == "prod":
            if x.v.ndim == 0:
                return None
            ax = k % x.v.ndim
            e = x.v.shape[ax]
            if m ** e > 2 ** 12 or x.v.size == 0:
                return None
            t = p.prod(x.t, axis=ax, keepdims=swap)
            w = np.prod(x.v, axis=ax, keepdims=swap)
            w = floor_div(w, f * (e - 1))
            tol = int(2 * e * m ** (e - 1)) + 3
        else:
            deg = k % 4 + 1
            cs = [NUM[(k * 5 + 3 * q + i) % len(NUM)] for q in range(deg)]
            if op == "poly":
                sets = [cs]
            else:
                sets = [[float(c) for c in cs], [0.5, -1.25], [2.0]]
            if m ** (deg - 1) > 2 ** 10:
                return None
            ws, tol = [], 3
            for c in sets:
                w = 0
                for q, cq in enumerate(c):
                    ce = int(round(cq * one * 2.0**20))
                    w = w + (floor_div(x.v ** q * ce, f * q + 20) if q else
                             floor_div(shp(ce), 20) + 0 * x.v)
                    tol = max(tol, 0) + int((2 * q * abs(cq) + 2 + (
                        abs(cq) * one * 2.0**-23 if op == "multipoly" else 0)) * m ** q) + 3
                ws.append(np.asarray(w, dtype=object) + np.zeros(x.v.shape, dtype=object))
            if op == "poly":
                t, w = p.polynomial(x.t, cs), ws[0]
                what += " %s" % cs
            else:
                t = p.multi_polynomial(x.t, sets)
                w = np.stack(ws)
                what += " %s" % sets
        if not hasattr(t, "shares"):
            # degree-0 polynomial of a private value: a public constant
            got = recon(t, what=what)
            within(got, w - tol, w + tol, what)
            return Reg(t, got, True)
        got = numeric(p, t, w, tol, what)
        return Reg(t, got, False)
    raise ValueError(op)


def run(c, each=None):
    p = P.aby3(c["prec"], debug=c["debug"], multi=c["multi"])
    regs = [make(p, d) for d in c["in"]]
    done = 0
    for s in c["steps"]:
        r = step(p, regs, s)
        if r is None:
            continue
        done += 1
        count("op " + s[0])
        if each is not None:
            each(p, r, s)
        regs.append(r)
    # operands must not have been changed by later operations
    for q in regs:
        exact(recon(q.t, what="operand afterwards"), q.v, "operand changed by later operations")
    return done >= 1


FAMILIES = [
    Family("arith_program", programs, run, 2200, shards=8, cost=4, budget=110,
           rule="1-4 private/public inputs (scaled or raw, broadcast shapes), 1-6 operators; "
                "non-trivial when at least one operator applied"),
]
