"""Two-party (Pond, SecureNN) arithmetic programs vs exact integer arithmetic."""
import math

import numpy as np
from hypothesis import strategies as st

from .. import env, gen, prot as P
from ..core import Family, Violation, count
from ..prot import exact, recon2, within

BIN = ["add", "sub", "mul", "mul", "matmul"]
UN = ["neg", "square", "sum", "cumsum", "addn", "reveal", "mask", "mask", "addc", "raddc", "subc",
      "rsubc", "mulc", "rmulc", "divc", "divp", "identity", "equal", "recip", "sqrt", "reuse"]
NUM = [0, 1, 2, 3, -1, -2, 0.5, 0.25, -0.5, 1.5, -1.75, 0.3, -0.7, 4.125, 5, 0.01]
CFGS = ["fixed64", "fixed64_ni", "fixed100", "fixed100_ni"]


@st.composite
def programs(draw):
    base = draw(gen.shapes(0, 3, 3))
    if draw(st.integers(0, 3)) == 0:
        base = [draw(st.integers(1, 3))] * 2
    ins = []
    for _ in range(draw(st.integers(1, 4))):
        k = draw(st.integers(0, len(base))) if draw(st.integers(0, 3)) == 0 else 0
        sh = base[k:]
        if draw(st.integers(0, 5)) == 0:
            sh = [1 if draw(st.booleans()) else d for d in sh]
        scaled = draw(st.sampled_from([True, True, True, False]))
        ins.append({"pub": draw(st.sampled_from([False, False, False, True])),
                    "how": draw(st.sampled_from(["var", "tensor", "input", "masked"])),
                    "scaled": scaled,
                    "v": draw(gen.reals_desc(sh, -8, 8) if scaled else gen.ints_desc(sh, ("small", "const")))})
    steps = draw(st.lists(st.tuples(st.sampled_from(BIN + UN), st.integers(0, 7), st.integers(0, 7),
                                    st.integers(0, 15), st.booleans()), min_size=1, max_size=6))
    return {"cfg": draw(st.sampled_from(CFGS)), "proto": draw(st.sampled_from(["pond", "pond", "securenn"])),
            "debug": draw(st.booleans()), "multi": draw(st.integers(0, 5)) == 0,
            "in": ins, "steps": [list(s) for s in steps]}


class Reg:
    def __init__(self, t, v, pub):
        self.t, self.v, self.pub = t, np.asarray(v, dtype=object), pub
        self.scaled = bool(t.is_scaled)
        self.kind = t.dispatch_id


def mag(v):
    return max([abs(int(x)) for x in np.asarray(v, dtype=object).reshape(-1)], default=0)


def make(p, d):
    S = p.fixedpoint_config.scaling_factor
    if d["scaled"]:
        a = np.asarray(gen.real_array(d["v"]))
        v = np.asarray([int(t * S) for t in a.reshape(-1)], dtype=object).reshape(a.shape)
    else:
        v = gen.int_array(d["v"], 8)
        a = np.asarray(v.astype(np.int64)).reshape(v.shape)
    kw = {"apply_scaling": d["scaled"]}
    how = d["how"]
    if d["pub"]:
        t = p.define_constant(a, **kw) if how == "var" else p.define_public_variable(a, **kw)
    elif how in ("var", "tensor"):
        t = p.define_private_variable(a, **kw)
        if how == "tensor":
            t = t.read_value()
    else:
        import tensorflow as tf
        t = p.define_private_input("server%d" % (a.size % 3), lambda: tf.constant(a),
                                   masked=how == "masked", **kw)
    got = recon2(t, "input")
    exact(got, v, "input sharing")
    return Reg(t, got, d["pub"])


def marked(t, want, what):
    if bool(t.is_scaled) != bool(want):
        raise Violation("%s: result marked %s" % (what, t.is_scaled))


def cenc(c, S):
    t = c * S
    return [np.asarray(math.floor(t), dtype=object), np.asarray(math.ceil(t), dtype=object)]


def rescaled(p, got, prods, pub, what):
    """got must be the quotient of a product known to lie in the interval of prods."""
    fc = p.fixedpoint_config
    S = fc.scaling_factor
    lo = hi = np.asarray(prods[0], dtype=object)
    for q in prods[1:]:
        lo, hi = np.minimum(lo, q), np.maximum(hi, q)
    ni = fc.use_noninteractive_truncation
    lo, hi = np.asarray(lo // S, dtype=object), np.asarray(hi // S, dtype=object)
    if pub:
        within(got, lo, hi, what)
    else:
        within(got, lo - (1 if ni else 0), hi + 1, what, prob=ni)


def step(p, regs, s):
    op, i, j, k, swap = s
    fc = p.fixedpoint_config
    S, m = fc.scaling_factor, P.modulus(p)
    x, y = regs[i % len(regs)], regs[j % len(regs)]
    # results must stay in the range the configuration guarantees for products and values
    two, one = fc.bound_double_precision, fc.bound_single_precision
    what = "%s(%s%s)" % (op, x.kind, "," + y.kind if op in BIN else "")
    R = lambda t: recon2(t, what)  # noqa: E731
    if op in BIN:
        if op == "matmul":
            if x.v.ndim < 2 or y.v.ndim != 2 or x.v.ndim != 2 or x.v.shape[-1] != y.v.shape[0]:
                return None
            w = np.asarray(np.dot(x.v, y.v), dtype=object)
        else:
            try:
                bs = np.broadcast_shapes(x.v.shape, y.v.shape)
            except ValueError:
                return None
            w = np.asarray({"add": lambda: x.v + y.v, "sub": lambda: x.v - y.v,
                            "mul": lambda: x.v * y.v}[op](), dtype=object).reshape(bs)
        if op in ("add", "sub"):
            for a, b in ((x, y), (y, x)):
                if a.pub and not b.pub and b.v.shape != bs:
                    return None  # a smaller private operand next to a larger public one is refused
            if x.scaled != y.scaled or mag(w) >= one:
                return None
            t = x.t + y.t if op == "add" else x.t - y.t
            got = R(t)
            exact(got, w, what)
            marked(t, x.scaled, what)
            return Reg(t, got, x.pub and y.pub)
        both = x.scaled and y.scaled
        if (both and mag(w) >= two) or (not both and mag(w) >= one):
            return None
        if op == "mul":
            t = x.t * y.t
        else:
            t = x.t.dot(y.t) if swap else p.matmul(x.t, y.t)
        got = R(t)
        pub = x.pub and y.pub
        if both:
            rescaled(p, got, [w], pub, what)
        else:
            exact(got, w, what)
        marked(t, x.scaled or y.scaled, what)
        return Reg(t, got, pub)
    if op in ("addc", "raddc", "subc", "rsubc"):
        c = NUM[k] if x.scaled else int(NUM[k])
        t = {"addc": lambda: x.t + c, "raddc": lambda: c + x.t, "subc": lambda: x.t - c,
             "rsubc": lambda: c - x.t}[op]()
        e = cenc(c, S if x.scaled else 1)
        a = -x.v if op == "rsubc" else x.v
        sg = -1 if op == "subc" else 1
        cs = [np.asarray(a + sg * q, dtype=object) for q in e]
        got = R(t)
        within(got, np.minimum(*cs), np.maximum(*cs), "%s %s" % (what, c))
        if mag(got) >= one:
            return None
        marked(t, x.scaled, what)
        return Reg(t, got, x.pub)
    if op in ("mulc", "rmulc", "divc"):
        c = NUM[k] if x.scaled else int(NUM[k])
        if op == "divc":
            if c == 0 or not x.scaled:
                return None
            e = cenc(1.0 / c, S)
        else:
            e = cenc(c, S if x.scaled else 1)
        prods = [np.asarray(x.v * q, dtype=object) for q in e]
        if max(mag(q) for q in prods) >= (two if x.scaled else one):
            return None
        t = {"mulc": lambda: x.t * c, "rmulc": lambda: c * x.t,
             "divc": lambda: x.t / (float(c) if swap else c)}[op]()
        got = R(t)
        if x.scaled:
            rescaled(p, got, prods, x.pub, "%s %s" % (what, c))
        else:
            exact(got, prods[0], "%s %s" % (what, c))
        marked(t, x.scaled, what)
        return Reg(t, got, x.pub)
    if op in ("divp", "recip"):
        if not x.scaled:
            return None
        if op == "recip":
            if not x.pub or not x.v.size or mag(x.v) == 0 or bool(np.any(abs(x.v) < S // 16)):
                return None
            t = p.reciprocal(x.t)
            got = R(t)
            w = np.asarray([int(round(S * S / int(q))) for q in x.v.reshape(-1)], dtype=object).reshape(x.v.shape)
            within(got, w - 1, w + 1, what)
            marked(t, True, what)
            return Reg(t, got, True)
        c = [2.0, -3.0, 0.5, 8.0][k % 4]
        ce = int(c * S)
        inv = cenc(S / ce, S)
        prods = [np.asarray(x.v * q, dtype=object) for q in (inv[0] - 1, inv[1] + 1)]
        if max(mag(q) for q in prods) >= two:
            return None
        t = x.t / p.define_constant(np.full(x.v.shape, c))
        got = R(t)
        rescaled(p, got, prods, x.pub, "%s %s" % (what, c))
        return Reg(t, got, x.pub)
    if op == "sqrt":
        if not (x.pub and x.scaled) or not x.v.size or bool(np.any(x.v < 0)):
            return None
        t = p.sqrt(x.t)
        got = R(t)
        w = np.asarray([math.isqrt(int(q) * S) for q in x.v.reshape(-1)], dtype=object).reshape(x.v.shape)
        within(got, w - 1, w + 1, what)
        return Reg(t, got, True)
    if op == "equal":
        if not (x.pub and y.pub) or x.v.shape != y.v.shape or x.scaled != y.scaled:
            return None
        t = p.equal(x.t, y.t)
        exact(R(t), gen.obj((x.v == y.v).astype(int)), what)
        marked(t, False, what)
        return Reg(t, R(t), True)
    if op == "neg":
        t = p.negative(x.t) if swap else x.t.negative()
        got = R(t)
        exact(got, np.asarray(-x.v, dtype=object), what)
        return Reg(t, got, x.pub)
    if op == "identity":
        if x.kind == "masked":
            return None
        t = p.identity(x.t)
        exact(R(t), x.v, what)
        return Reg(t, R(t), x.pub)
    if op == "square":
        w = np.asarray(x.v * x.v, dtype=object)
        if mag(w) >= (two if x.scaled else one):
            return None
        t = x.t.square() if swap else p.square(x.t)
        got = R(t)
        if x.scaled:
            rescaled(p, got, [w], x.pub, what)
        else:
            exact(got, w, what)
        return Reg(t, got, x.pub)
    if op == "sum":
        nd = x.v.ndim
        ax = None if nd == 0 or k % (nd + 1) == nd else k % (nd + 1) - (nd if k > 7 else 0)
        w = np.asarray(np.sum(x.v, axis=ax, keepdims=swap), dtype=object)
        if mag(w) >= one:
            return None
        t = p.reduce_sum(x.t, axis=ax, keepdims=swap) if k % 2 else x.t.sum(axis=ax, keepdims=swap)
        got = R(t)
        exact(got, w, "%s axis=%s keepdims=%s" % (what, ax, swap))
        return Reg(t, got, x.pub)
    if op == "cumsum":
        if x.v.ndim == 0:
            return None
        ax, ex, rev = k % x.v.ndim, bool(k & 4), bool(k & 8)
        v = np.flip(x.v, ax) if rev else x.v
        w = np.cumsum(v, axis=ax)
        if ex:
            w = w - v
        w = np.asarray(np.flip(w, ax) if rev else w, dtype=object)
        if mag(w) >= one:
            return None
        t = p.cumsum(x.t, axis=ax, exclusive=ex, reverse=rev)
        got = R(t)
        exact(got, w, "%s axis=%d ex=%s rev=%s" % (what, ax, ex, rev))
        return Reg(t, got, x.pub)
    if op == "addn":
        ys = [x] + [r for r in regs if r.v.shape == x.v.shape and r.scaled == x.scaled][:k % 4]
        w = ys[0].v
        for r in ys[1:]:
            w = w + r.v
        if mag(w) >= one:
            return None
        t = p.add_n([r.t for r in ys])
        exact(R(t), w, "%s of %d" % (what, len(ys)))
        return Reg(t, R(t), all(r.pub for r in ys))
    if op == "mask":
        if x.kind != "private":
            return None
        t = p.mask(x.t)
        exact(R(t), x.v, what)
        a, a0, a1 = P.ints2(t.a), P.ints2(t.a0), P.ints2(t.a1)
        exact((a0 + a1) % m, a, what + " mask shares")
        for al in (t.alpha_on_0, t.alpha_on_1):
            exact(P.signed(P.ints2(al) + a, m), x.v, what + " masked value")
        return Reg(t, x.v, False)
    if op == "reveal":
        if x.pub:
            return None
        t = x.t.reveal()
        exact(R(t), x.v, what)
        if mag(x.v) < one:
            P.close(env.native(t), np.asarray(x.v, dtype=np.float64) / (S if x.scaled else 1),
                    1e-9, "decoding")
        return Reg(t, x.v, True)
    if op == "reuse":
        # the same operands again give the same function of them
        if not x.scaled or mag(x.v * x.v) >= two:
            return None
        a, b = x.t * x.t, x.t * x.t
        w = np.asarray(x.v * x.v, dtype=object)
        for t in (a, b):
            rescaled(p, R(t), [w], x.pub, what)
        return Reg(b, R(b), x.pub)
    raise ValueError(op)


def run(c):
    p = P.two_party(c["proto"], c["cfg"], debug=c["debug"], multi=c["multi"])
    regs = [make(p, d) for d in c["in"]]
    done = 0
    for s in c["steps"]:
        r = step(p, regs, s)
        if r is None:
            continue
        done += 1
        count("op " + s[0])
        regs.append(r)
    for q in regs:
        exact(recon2(q.t, "operand afterwards"), q.v, "operand changed by later operations")
    return done >= 1


FAMILIES = [
    Family("program", programs, run, 4500, shards=8, cost=2, budget=110,
           rule="1-4 private/public/masked inputs, 1-6 operators; non-trivial when an operator applied"),
]
