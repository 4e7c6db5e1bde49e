"""Non-linear approximations vs the mathematical functions, on their working ranges."""
import numpy as np
from hypothesis import strategies as st

from .. import env, gen, prot as P
from ..core import Family, Violation, count
from ..prot import close

CFGS = ["fixed64", "fixed64_ni", "fixed100", "fixed100_ni"]
ULP = {"l": 2.0 ** -16, "h": 2.0 ** -32}
INTB = {"l": 11, "h": 20}


def points(draw, lo, hi, special=(), n=10, mag=None):
    """Real inputs in [lo, hi]: uniform, near special points, and (mag) of any binary exponent."""
    one = [st.floats(lo, hi, allow_nan=False)]
    sp = [s for s in special if lo <= s <= hi]
    if sp:
        one.append(st.builds(lambda s, d: min(hi, max(lo, s + d)), st.sampled_from(sp),
                             st.sampled_from([0.0, 2.0 ** -16, -2.0 ** -16, 2.0 ** -30, 1e-3, -1e-3])))
    if mag:
        one.append(st.builds(lambda e, m: min(hi, max(lo, m * 2.0 ** e)), st.integers(mag[0], mag[1]),
                             st.floats(1.0, 1.999)))
    return draw(st.lists(st.one_of(*one), min_size=1, max_size=n))


def run_cfg(draw):
    return {"prec": draw(st.sampled_from(["l", "l", "h"])), "debug": draw(st.booleans()),
            "multi": draw(st.integers(0, 9)) == 0}


def value(p, x, prec):
    """(private tensor, the reals it actually holds)."""
    e = P.enc(P.fbits(p), np.asarray(x))
    return p.define_private_variable(np.asarray(x, dtype=np.float64)), \
        np.asarray(e, dtype=np.float64) * ULP[prec]


# ------------------------------------------------------- reciprocal and square roots
@st.composite
def case_recip(draw):
    c = run_cfg(draw)
    b = INTB[c["prec"]]
    op = draw(st.sampled_from(["recip", "recip", "recip_ns", "invsqrt", "invsqrt", "pub_recip", "pub_sqrt",
                               "div"]))
    lo, hi = (2.0 ** -8, 2.0 ** b - 1) if op != "invsqrt" else (2.0 ** -7, 2.0 ** (b - 1))
    x = points(draw, lo, hi, [1.0, 2.0, 0.5, 0.25, 2.0 ** (b - 1), 1023.0, 1024.0, 1025.0], mag=(-8, b - 1))
    c.update(op=op, x=x, sign=draw(st.lists(st.booleans(), min_size=len(x), max_size=len(x))),
             it=draw(st.sampled_from([1, 1, 2, 3])), col=draw(st.booleans()))
    return c


def run_recip(c):
    p = P.aby3(c["prec"], debug=c["debug"], multi=c["multi"])
    u = ULP[c["prec"]]
    op = c["op"]
    x = np.asarray(c["x"], dtype=np.float64)
    if op in ("recip", "pub_recip", "div"):
        x = np.where(c["sign"], -x, x)
    if c["col"]:
        x = x.reshape(-1, 1)
    if op.startswith("pub") or op == "div":
        v = np.asarray(P.enc(P.fbits(p), x), dtype=np.float64) * u
        t = p.define_constant(x)
        if op == "div":
            num = p.define_private_variable(np.full(x.shape, 3.0))
            r, f = num / t, 3.0 / v
            tol = 4 * u + 4 * u * np.abs(f)
        elif op == "pub_sqrt":
            r, f = p.sqrt(t), np.sqrt(v)
            tol = 2 * u
        else:
            r, f = p.reciprocal(t), 1.0 / v
            tol = 2 * u
    else:
        t, v = value(p, x, c["prec"])
        if op == "invsqrt":
            r, f = p.inv_sqrt(t, precision=c["it"]), 1.0 / np.sqrt(v)
            tol = 8 * u + f * ((8e-5 if c["it"] == 1 else 1e-7) + 10 * u * np.maximum(1, f))
        else:
            r = p.reciprocal(t, nonsigned=op == "recip_ns", precision=c["it"])
            f = 1.0 / v
            a = np.abs(f)
            tol = 3 * u + a * ((4e-6 if c["it"] == 1 else 1e-8) + 6 * u * np.maximum(1, a))
    close(env.native(r), f, tol, "%s %s it=%d of %s" % (op, c["prec"], c["it"], np.ravel(v)[:4]))
    count(op)
    return True


# ----------------------------------------------------------------------- exponentials
@st.composite
def case_exp(draw):
    c = run_cfg(draw)
    kind = draw(st.sampled_from(["mp-spdz", "mp-spdz", "as2019", "infinity", "pade"]))
    op = "exp2" if kind == "pade" or (kind != "infinity" and draw(st.booleans())) else "exp"
    sign = draw(st.sampled_from([None, None, 1, -1])) if kind == "mp-spdz" else None
    k = 1.0 if op == "exp2" else 1.4427
    lo, hi = {"mp-spdz": (-32 / k, (INTB[c["prec"]] - .1) / k), "as2019": (-10.9 / k, 10.9 / k),
              "infinity": (-20, 5), "pade": (0, 1)}[kind]
    if sign == 1:
        lo = 0
    if sign == -1:
        hi = -2.0 ** -12
    c.update(kind=kind, op=op, sign=sign,
             x=points(draw, lo, hi, [0, 1, -1, 2, -2, 3, -4, 8, -8, -10, 0.5, -0.5, -16, -15, 10], n=8))
    return c


def run_exp(c):
    p = P.aby3(c["prec"], debug=c["debug"], multi=c["multi"])
    u = ULP[c["prec"]]
    t, v = value(p, c["x"], c["prec"])
    kind, sign = c["kind"], c["sign"]
    f = np.exp2(v) if c["op"] == "exp2" else np.exp(v)
    if kind == "pade":
        r = p.exp2_pade(t)
        tol = 9 * u + f * 8e-6
    elif kind == "infinity":
        r = p.exp(t, approx_type="infinity")
        tol = 8 * u + f * np.minimum(1.0, v * v / 256 * 1.15 + 400 * u)
    else:
        kw = {"approx_type": kind, "sign": sign}
        r = p.exp2(t, **kw) if c["op"] == "exp2" else p.exp(t, **kw)
        tol = 4 * u + f * (8e-6 + (9 + (2 * np.abs(v) if c["op"] == "exp" else 0)) * u)
    close(env.native(r), f, tol, "%s %s %s sign=%s at %s" % (c["op"], kind, c["prec"], sign, v[:4]))
    count("%s %s" % (c["op"], kind))
    return True


# --------------------------------------------------------------- piecewise and sigmoid
@st.composite
def case_piece(draw):
    c = run_cfg(draw)
    op = draw(st.sampled_from(["sig3", "sig5", "poly"]))
    c.update(op=op)
    if op == "poly":
        br = sorted(set(draw(st.lists(st.integers(-12, 12), min_size=1, max_size=4))))
        br = [b / 2 for b in br]
        co = st.one_of(st.sampled_from([0.0, 1.0, -1.0, 2.0, 0.5, 1, 0, 3]), st.integers(-200, 200).map(lambda v: v / 64))
        c.update(br=br, co=[draw(st.lists(co, min_size=1, max_size=3)) for _ in range(len(br) + 1)])
    else:
        br = [-2.5, 2.5] if op == "sig3" else [-4.0, -1.5, 1.5, 4.0]
    c.update(x=points(draw, -9, 9, list(br) + [-100.0], n=8))
    if op != "poly" and draw(st.booleans()):
        c["x"].append(draw(st.sampled_from([-500.0, 500.0, 33.0, -21.0])))
    return c


def sig_ref(x, op):
    if op == "sig3":
        return np.select([x <= -2.5, x <= 2.5], [1e-4, 0.5 + 0.17 * x], 1 - 1e-4)
    return np.select([x <= -4, x <= -1.5, x <= 1.5, x <= 4],
                     [1e-4, 0.281 + 0.066 * x, 0.5 + 0.212 * x, 0.719 + 0.066 * x], 1 - 1e-4)


def envelope(ref, f, v, r=0.25):
    """Largest error of the approximation close to each point."""
    d = np.linspace(-r, r, 101)
    g = v.reshape(-1, 1) + d
    return np.abs(ref(g) - f(g)).max(axis=1).reshape(v.shape)


def sigm(x):
    return 1 / (1 + np.exp(-x))


def run_piece(c):
    p = P.aby3(c["prec"], debug=c["debug"], multi=c["multi"])
    u = ULP[c["prec"]]
    t, v = value(p, c["x"], c["prec"])
    if c["op"] != "poly":
        name = "3_piecewise_linear" if c["op"] == "sig3" else "5_piecewise_linear"
        got = np.asarray(env.native(p.sigmoid(t, approx_type=name)))
        what = "sigmoid %s %s at %s" % (name, c["prec"], v[:4])
        tol = envelope(lambda g: sig_ref(g, c["op"]), sigm, v) * 1.02 + 6 * u + 1e-7
        close(got, sigm(v), tol, what)
        if np.any(got < -4 * u) or np.any(got > 1 + 4 * u):
            raise Violation(what + ": outside [0, 1]: %s" % got)
        mid = np.abs(v) > 5  # saturates with the right sign
        if np.any(mid & (np.sign(v) * (got - 0.5) < 0.45)):
            raise Violation(what + ": does not saturate: %s" % got)
        count("sigmoid")
        return True
    # a user-given piecewise polynomial: piece i applies up to and including breakpoint i
    idx = np.searchsorted(np.asarray(c["br"]), v, side="left")
    want, tol = np.zeros(v.shape), np.zeros(v.shape)
    for i, (j, q) in enumerate(zip(idx, v)):
        co = c["co"][j]
        want[i] = sum(k * q ** e for e, k in enumerate(co))
        tol[i] = sum((abs(q) ** e + e * abs(k) * max(1, abs(q)) ** max(e - 1, 0) + 2) * 1.5 * u + abs(k) * abs(q) ** e * 2e-7
                     for e, k in enumerate(co))
    r = p.polynomial_piecewise(t, tuple(c["br"]), tuple(tuple(q) for q in c["co"]))
    close(env.native(r), want, tol + 8 * u, "polynomial_piecewise %s %s at %s" % (c["br"], c["co"], v[:5]))
    count("piecewise")
    return len(set(idx.tolist())) > 1 or len(c["x"]) == 1


# --------------------------------------------------------------------------- softmax
@st.composite
def case_soft(draw):
    c = run_cfg(draw)
    n, m = draw(st.integers(1, 3)), draw(st.integers(1, 7))
    kind = draw(st.sampled_from(["mp-spdz", "mp-spdz", "as2019", "infinity"]))
    w = {"mp-spdz": 12, "as2019": 3.4, "infinity": 6}[kind]
    c.update(kind=kind, how=draw(st.sampled_from(["tree", "tree", "network"])),
             x=draw(gen.reals_desc([n, m] if draw(st.booleans()) else [m], -w, w)),
             shift=draw(st.sampled_from([0, 0, 100, -100, 7])))
    return c


def run_soft(c):
    p = P.aby3(c["prec"], debug=c["debug"], multi=c["multi"])
    x = np.asarray(gen.real_array(c["x"])) + c["shift"]
    t, v = value(p, x, c["prec"])
    got = np.asarray(env.native(p.softmax(t, approx_type=c["kind"], max_method=c["how"])))
    e = np.exp(v - v.max(axis=-1, keepdims=True))
    f = e / e.sum(axis=-1, keepdims=True)
    what = "softmax %s %s %s of %s" % (c["kind"], c["how"], c["prec"], np.ravel(v)[:6])
    u = ULP[c["prec"]]
    tol = 5e-3 if c["kind"] == "infinity" else 16 * u + 2e-5 + 24 * u * x.shape[-1]
    close(got, f, tol, what)
    close(got.sum(axis=-1), np.ones(f.shape[:-1]), tol * x.shape[-1], what + ": total")
    count("softmax " + c["kind"])
    return x.shape[-1] > 1


# ----------------------------------------------- polynomial approximations (all protocols)
POLY = {
    "sigmoid": (-4.5, 4.5, {0: 0.5, 1: 0.2159198015, 3: -0.0082176259, 5: 0.0001825597, 7: -0.0000018848,
                            9: 0.0000000072}, sigm),
    "tanh": (-2.2, 2.2, {0: 0, 1: 0.852721056, 3: -0.12494112, 5: 0.010654528, 7: -0.000423424}, np.tanh),
    "relu": (-4.5, 4.5, {0: 0.44015372000819103, 1: 0.5, 2: 0.11217537671414643, 4: -0.0013660836712429923,
                         6: 9.009136367360004e-06, 8: -2.1097433984e-08}, lambda x: np.maximum(x, 0)),
    "log": (0.1, 1.4, {0: -3.35674972, 1: 12.79333646, 2: -26.18955259, 3: 30.24596692, 4: -17.30367641,
                       5: 3.82474222}, lambda x: np.log(np.maximum(x, 1e-3))),
}


@st.composite
def case_poly(draw):
    fn = draw(st.sampled_from(sorted(POLY)))
    lo, hi = POLY[fn][:2]
    pr = draw(st.sampled_from(["pond", "pond", "aby3"])) if fn == "log" else "pond"
    return {"fn": fn, "proto": pr, "prec": draw(st.sampled_from(["l", "h"])), "cfg": draw(st.sampled_from(CFGS)),
            "debug": draw(st.booleans()), "multi": draw(st.integers(0, 9)) == 0,
            "kind": draw(st.sampled_from(["private", "private", "public", "masked"])),
            "x": points(draw, lo, hi, [0, 1, -1, lo, hi], n=8)}


def run_poly(c):
    lo, hi, w, f = POLY[c["fn"]]
    x = np.asarray(c["x"], dtype=np.float64)
    prob = False
    if c["proto"] == "aby3":
        p = P.aby3(c["prec"], debug=c["debug"], multi=c["multi"])
        t, v = value(p, x, c["prec"])
        u = ULP[c["prec"]]
    else:
        p = P.two_party("pond", c["cfg"], debug=c["debug"], multi=c["multi"])
        fc = p.fixedpoint_config
        u = 1.0 / fc.scaling_factor
        prob = fc.use_noninteractive_truncation
        v = np.asarray([int(q * fc.scaling_factor) for q in x], dtype=np.float64) * u
        if c["kind"] == "public":
            t = p.define_constant(x)
        else:
            t = p.define_private_variable(x)
            if c["kind"] == "masked":
                t = p.mask(t)
    r = getattr(p, c["fn"])(t)
    got = np.asarray(env.native(r))
    a = np.maximum(np.abs(v), 0.1)
    rnd = u * (4 + sum(a ** k + abs(wk) * 1.6 * k * np.maximum(1, a) ** (k - 1) + 2 for k, wk in w.items() if k))
    env_ = envelope(lambda g: sum(wk * g ** k for k, wk in w.items()), f, v, 0.1 if c["fn"] == "log" else 0.25)
    close(got, f(v), env_ * 1.02 + rnd, "%s of %s (%s) at %s" % (
        c["fn"], t.dispatch_id, c["prec"] if c["proto"] == "aby3" else c["cfg"], v[:4]), prob=prob)
    count("%s %s" % (c["fn"], t.dispatch_id))
    return True


FAMILIES = [
    Family("reciprocal and roots", case_recip, run_recip, 420, shards=2, cost=3,
           rule="values of every binary exponent in range, both signs; each case evaluates 1-10 points"),
    Family("exponentials", case_exp, run_exp, 220, shards=3, cost=6,
           rule="points over the documented range, near integers; each case evaluates 1-8 points"),
    Family("piecewise", case_piece, run_piece, 240, shards=1, cost=3,
           rule="points on, next to and between breakpoints; polynomial cases non-trivial when two pieces are hit"),
    Family("softmax", case_soft, run_soft, 100, shards=2, cost=6,
           rule="logit vectors; non-trivial with two or more classes"),
    Family("polynomials", case_poly, run_poly, 500, shards=1, cost=2,
           rule="points over the working range, private/public/masked"),
]
