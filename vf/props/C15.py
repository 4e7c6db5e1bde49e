"""One program, every way of running it: eager, repeated, traced, captured, debug, several
devices, several protocols in turn.  Each run is compared with the plaintext result, within
an error bound derived from the program alone, so that no mode is taken as the reference."""
import numpy as np
import tensorflow as tf
from hypothesis import strategies as st

from .. import env, gen, prot as P
from ..core import Family, Violation, count
from ..env import tfe
from tf_encrypted.tensor import fixed

PROTS = ["aby3l", "aby3l", "aby3h", "pond", "pond_ni", "snn", "pond100"]
OPS = ["add", "sub", "mul", "mul", "neg", "square", "addc", "mulc", "addnp", "mulnp", "addtf", "roll", "flat",
       "tt", "cen", "mm", "relu", "reveal", "poly", "stack", "captured", "captured", "captured", "max", "div"]


def make_prot(kind):
    if kind.startswith("aby3"):
        return tfe.protocol.ABY3(fixedpoint_config=kind[4:])
    if kind == "snn":
        return tfe.protocol.SecureNN(fixedpoint_config=fixed.fixed64)
    return tfe.protocol.Pond(fixedpoint_config={"pond": fixed.fixed64, "pond_ni": fixed.fixed64_ni,
                                                "pond100": fixed.fixed100}[kind])


def unit(p):
    return 1.0 / p.fixedpoint_config.scaling_factor if hasattr(p.fixedpoint_config, "scaling_factor") \
        else 2.0 ** -p.fixedpoint_config.precision_fractional


# ------------------------------------------------------------------- programs, abstractly
class Reg:
    """A register: TFE tensor (or None), plaintext value, bound M on magnitude, E on error."""

    def __init__(self, t, v, M, E, public=False):
        self.t, self.v, self.M, self.E, self.public = t, v, M, E, public


LIM = 40.0


def const(shape, seed, lo=-2.0, hi=2.0):
    return np.random.Generator(np.random.PCG64(seed)).integers(int(lo * 64), int(hi * 64) + 1, size=shape) / 64.0 + np.zeros(shape)


def run_prog(kind, p, prog, regs, cap, cseed, live):
    """Interpret a program; `live` False evaluates the plaintext side only."""
    u = unit(p)
    priv = [r for r in regs if not r.public]
    shape = regs[0].v.shape
    n = int(np.prod(shape, dtype=int))
    pubs = []

    def T(f):
        return f() if live else None

    def pick(k):
        return priv[len(priv) - 1 - k % min(len(priv), 4)]

    for s, (op, i, j, seed) in enumerate(prog):
        a, b = pick(i), pick(j)
        other = pubs[-1] if pubs and seed % 3 == 0 else b
        k = (seed % 129 - 64) / 32.0
        arr_seed = seed + cseed
        r = None
        if op == "add":
            r = Reg(T(lambda: tfe.add(a.t, other.t)), a.v + other.v, a.M + other.M, a.E + other.E)
        elif op == "sub":
            r = Reg(T(lambda: a.t - other.t), a.v - other.v, a.M + other.M, a.E + other.E)
        elif op == "mul":
            r = Reg(T(lambda: a.t * other.t), a.v * other.v, a.M * other.M,
                    a.M * other.E + other.M * a.E + a.E * other.E + 3 * u)
        elif op == "neg":
            r = Reg(T(lambda: tfe.negative(a.t)), -a.v, a.M, a.E)
        elif op == "square":
            r = Reg(T(lambda: tfe.square(a.t)), a.v ** 2, a.M ** 2, 2 * a.M * a.E + a.E ** 2 + 3 * u)
        elif op == "addc":
            r = Reg(T(lambda: a.t + k), a.v + k, a.M + 2, a.E + u)
        elif op == "mulc":
            r = Reg(T(lambda: a.t * k), a.v * k, a.M * 2, 2 * a.E + a.M * u + 3 * u)
        elif op in ("addnp", "mulnp", "addtf"):
            c = np.asarray(const(shape, arr_seed))
            ab = kind.startswith("aby3")

            def arr():
                v = np.array(const(shape, arr_seed))
                return v if ab and seed % 4 else tf.constant(v) if ab else tfe.define_constant(v)
            if op == "addnp":
                r = Reg(T(lambda: tfe.add(a.t, arr())), a.v + c, a.M + 2, a.E + u)
            elif op == "addtf":
                r = Reg(T(lambda: a.t + tfe.define_constant(np.array(const(shape, arr_seed)))), a.v + c, a.M + 2, a.E + u)
            else:
                r = Reg(T(lambda: tfe.mul(a.t, arr())), a.v * c, a.M * 2, 2 * a.E + a.M * u + 3 * u)
        elif op == "roll" and shape and shape[0] > 1:
            r = Reg(T(lambda: tfe.concat([a.t[1:], a.t[:1]], axis=0)), np.roll(a.v, -1, 0), a.M, a.E)
        elif op == "flat":
            r = Reg(T(lambda: tfe.reshape(tfe.reshape(a.t, [n]), list(shape))), a.v, a.M, a.E)
        elif op == "tt" and len(shape) == 2:
            r = Reg(T(lambda: tfe.transpose(tfe.transpose(a.t) + tfe.transpose(b.t))), a.v + b.v, a.M + b.M, a.E + b.E)
        elif op == "cen" and len(shape) >= 1 and shape[-1] <= 4:
            ax = len(shape) - 1
            m = shape[-1]
            r = Reg(T(lambda: a.t - tfe.reduce_sum(b.t, axis=ax, keepdims=True)) if kind[:4] != "aby3" or shape[-1] == 1
                    else T(lambda: a.t - tfe.reduce_sum(b.t, axis=ax, keepdims=True)),
                    a.v - b.v.sum(-1, keepdims=True), a.M + m * b.M, a.E + m * b.E)
        elif op == "mm" and len(shape) == 2 and shape[1] <= 4 and shape[0] <= 4:
            m, q = shape
            t = T(lambda: tfe.matmul(tfe.matmul(a.t, tfe.transpose(b.t)), a.t))
            M1, E1 = m and q * a.M * b.M, q * (a.M * b.E + b.M * a.E + a.E * b.E) + 3 * u
            if M1 > LIM:
                continue
            r = Reg(t, a.v @ b.v.T @ a.v, m * M1 * a.M, m * (M1 * a.E + a.M * E1 + a.E * E1) + 3 * u)
        elif op == "relu" and kind in ("aby3l", "aby3h", "snn") and n <= 64:
            r = Reg(T(lambda: tfe.relu(a.t)), np.maximum(a.v, 0), a.M, a.E + 2 * u)
        elif op == "max" and kind in ("aby3l", "aby3h", "snn") and n <= 64:
            r = Reg(T(lambda: tfe.maximum(a.t, b.t)), np.maximum(a.v, b.v), max(a.M, b.M), max(a.E, b.E) + 2 * u)
        elif op == "reveal":
            if a.M <= 4:
                pubs.append(Reg(T(lambda: tfe.reveal(a.t)), a.v, a.M, a.E, True))
            continue
        elif op == "poly" and kind.startswith("aby3"):
            co = [0.5, k, 0.25]
            if a.M <= 6:
                r = Reg(T(lambda: tfe.polynomial(a.t, co)), 0.5 + k * a.v + 0.25 * a.v ** 2, 0.5 + 2 * a.M + a.M ** 2 / 4,
                        a.E * (2 + a.M) + (a.M + a.M ** 2) * u + 12 * u)
        elif op == "stack":
            if kind.startswith("aby3"):
                r = Reg(T(lambda: tfe.stack([a.t, b.t], axis=0)[seed % 2]), [a.v, b.v][seed % 2], max(a.M, b.M), max(a.E, b.E))
            elif shape:
                m = shape[0]
                r = Reg(T(lambda: tfe.concat([a.t, b.t], axis=0)[m * (seed % 2):m * (seed % 2) + m]),
                        [a.v, b.v][seed % 2], max(a.M, b.M), max(a.E, b.E))
        elif op == "captured":
            if cap is not None:
                # a tensor from outside the function; several functions and runs share it
                w = seed % 6
                if w == 0:
                    r = Reg(T(lambda: tfe.negative(cap.t) - a.t), -cap.v - a.v, a.M + cap.M, a.E + cap.E)
                elif w == 1:
                    r = Reg(T(lambda: cap.t * a.t), cap.v * a.v, a.M * cap.M,
                            a.M * cap.E + cap.M * a.E + a.E * cap.E + 3 * u)
                elif w == 2:
                    r = Reg(T(lambda: tfe.transpose(tfe.transpose(cap.t))), cap.v, cap.M, cap.E)
                elif w == 3 and shape:
                    r = Reg(T(lambda: tfe.stack([cap.t, a.t], axis=0)[0] + tfe.stack([cap.t, cap.t], axis=0)[1]),
                            2 * cap.v, 2 * cap.M, 2 * cap.E)
                elif w == 4 and shape:
                    r = Reg(T(lambda: a.t - tfe.strided_slice(cap.t, [0] * len(shape), list(shape), [1] * len(shape))),
                            a.v - cap.v, a.M + cap.M, a.E + cap.E)
                else:
                    r = Reg(T(lambda: tfe.square(cap.t)), cap.v ** 2, cap.M ** 2,
                            2 * cap.M * cap.E + cap.E ** 2 + 3 * u)
        elif op == "div":
            d = [2.0, 4.0, 0.5, 8.0][seed % 4]
            r = Reg(T(lambda: a.t / d), a.v / d, a.M * 2, 2 * a.E + a.M * u + 3 * u)
        if r is None or r.M > LIM:
            continue
        priv.append(r)
    outs = priv[len(regs):][-2:] or [priv[-1]]
    return outs + pubs[-1:]


def plan(kind, p, prog):
    """Programs are pruned once, independently of inputs: keep what the bounds allow."""
    return [list(s) for s in prog]


@st.composite
def case(draw, big=False):
    np_ = draw(st.integers(1, 3 if not big else 2))
    if big:
        shape = draw(st.sampled_from([[1100], [40, 30], [3, 400], [1003, 1]]))
    else:
        shape = draw(gen.shapes(0, 2, 3))
    progs = [[list(o) for o in draw(st.lists(st.tuples(
        st.sampled_from(OPS if not big else ["addnp", "mulnp", "addtf", "addnp", "add", "neg"]),
        st.integers(0, 5), st.integers(0, 5), st.integers(0, 4000)), min_size=1, max_size=6 if not big else 3))]
        for _ in range(draw(st.integers(1, 2)))]
    steps = draw(st.lists(st.tuples(
        st.sampled_from(["eager", "eager", "traced", "traced", "again", "closure", "fresh", "switch", "switch", "shared", "shared", "debug", "listarg",
                         "kwarg", "mutate", "churn"]),
        st.integers(0, 3), st.integers(0, 3)), min_size=2, max_size=7 if not big else 6))
    return {"prots": draw(st.one_of(st.lists(st.sampled_from(PROTS), min_size=np_, max_size=np_),
                                     st.permutations(["pond", "pond_ni", "snn"]))) if np_ > 1 else
            [draw(st.sampled_from(PROTS))], "multi": draw(st.integers(0, 2)) == 0,
            "debug": draw(st.integers(0, 3)) == 0, "shape": shape, "nin": draw(st.integers(1, 3)), "progs": progs,
            "steps": [list(s) for s in steps], "s": draw(gen.SEED), "var": draw(st.booleans()),
            "cap": draw(st.integers(0, 3)) > 0}


def private(p, v, var):
    v = np.asarray(v)
    if var or not isinstance(p, tfe.protocol.ABY3):
        return tfe.define_private_variable(v)
    return tfe.define_private_input("server0", lambda: tf.constant(v))


def run(c):
    cfg = env.use_config(debug=c["debug"], multi=c["multi"], names=["server0", "server1", "server2", "input-provider"])
    prots = []
    for k in c["prots"]:
        p = make_prot(k)
        prots.append(p)
    shape = tuple(c["shape"])
    cur = 0
    tfe.set_protocol(prots[cur])
    inputs = [[const(shape, c["s"] + 10 * q + i, -4, 4) for i in range(c["nin"])] for q in range(3)]
    held, caps, fns = {}, {}, {}
    runs = 0
    modes = set()

    def regs_of(q, fresh=False):
        p = prots[cur]
        key = (cur, q)
        if key not in held or fresh:
            held[key] = [Reg(private(p, v, c["var"]), v, 4.0, unit(p)) for v in inputs[q]]
        return held[key]

    def cap_of():
        if not c["cap"]:
            return None
        if cur not in caps:
            v = const(shape, c["s"] + 999, -2, 2)
            caps[cur] = Reg(private(prots[cur], v, True), v, 2.0, unit(prots[cur]))
        return caps[cur]

    def verify(got, want, what):
        if len(got) != len(want):
            raise Violation("%s: %d results instead of %d" % (what, len(got), len(want)))
        for i, (g, w) in enumerate(zip(got, want)):
            if not hasattr(g, "unwrapped") and not hasattr(g, "reveal"):
                raise Violation("%s: result %d is a %s" % (what, i, type(g).__name__))
            y = np.asarray(env.native(g))
            if y.shape != w.v.shape:
                raise Violation("%s: result %d has shape %s instead of %s" % (what, i, y.shape, w.v.shape))
            if y.size and not np.all(np.abs(y - w.v) <= w.E + 1e-9):
                d = np.abs(y - w.v)
                at = np.unravel_index(np.nanargmax(d - w.E), d.shape) if d.shape else ()
                raise Violation("%s: result %d%s is %s instead of %s (allowed error %.3g)" % (
                    what, i, list(map(int, at)), y[at], w.v[at], w.E), prob=True)

    for step, (how, a, q) in enumerate(c["steps"]):
        q %= 3
        pi = a % len(c["progs"])
        prog = c["progs"][pi]
        kind, p = c["prots"][cur], prots[cur]
        what = "step %d: program %d %s under %s%s" % (step, pi, how, kind, " (debug)" if cfg.debug else "")
        if how == "switch":
            cur = (cur + 1 + a) % len(prots)
            tfe.set_protocol(prots[cur])
            continue
        if how == "debug":
            cfg.set_debug_mode(not cfg.debug)
            continue
        if how == "churn":
            # drop the inputs made so far; later ones may take their place in memory
            held.clear()
            continue
        if how == "fresh":
            inputs[q] = [const(shape, c["s"] + 1000 * (step + 1) + i, -4, 4) for i in range(c["nin"])]
            regs = regs_of(q, True)
            verify([r.t for r in regs], regs, what + " (inputs)")
            continue
        if how == "mutate":
            # a caller's array changes in place between two uses
            r = regs_of(q)[0]
            k = np.array(const(shape, c["s"] + 5))
            for m in range(2):
                verify([tfe.add(r.t, k if kind[:4] == "aby3" else tfe.define_constant(k))], [Reg(None, r.v + k, 6, r.E + unit(p))], what + " use %d" % m)
                if k.size:
                    k.reshape(-1)[k.size // 2] += 1.0
            continue
        if how in ("traced", "shared", "listarg", "kwarg", "closure") and kind == "pond100" and not cfg.debug:
            how = "eager"
        regs = regs_of(q)
        cap = cap_of()
        if how in ("eager", "again"):
            for m in range(2 if how == "again" else 1):
                got = run_prog(kind, p, prog, regs, cap, 7 * step + m if how == "eager" else 7 * step, True)
                want = got
                verify([g.t for g in got], want, what + " use %d" % m)
        elif how == "closure":
            out = []

            def body():
                o = run_prog(kind, p, prog, regs, cap, 0, True)
                return [x.t for x in o]
            got = tfe.function(body)()
            verify(list(got), run_prog(kind, p, prog, regs, cap, 0, False), what)
        else:
            # one function for every protocol, or one for each
            key = (pi, how) if how == "shared" else (cur, pi, how)
            if key not in fns:
                def body(*args, xs=None, pi_=pi, **kw):
                    args = list(args) + list(xs or []) + [kw[k] for k in sorted(kw)]
                    rs = [Reg(t, np.zeros(shape), 4.0, 0) for t in args]
                    return [x.t for x in run_prog(c["prots"][cur], prots[cur], c["progs"][pi_], rs, cap_of(), 0, True)]
                fns[key] = tfe.function(body)
            ts = [r.t for r in regs]
            if how in ("traced", "shared"):
                got = fns[key](*ts)
            elif how == "listarg":
                got = fns[key](xs=ts)
            else:
                got = fns[key](**{"k%d" % i: t for i, t in enumerate(ts)})
            verify(list(got), run_prog(kind, p, prog, regs, cap, 0, False), what)
        runs += 1
        modes.add((how, kind, cfg.debug))
    count("program runs compared", runs)
    return runs >= 2


FAMILIES = [
    Family("modes", case, run, 330, shards=7, cost=3, budget=80, rule="at least two runs of a program were compared"),
    Family("large", lambda: case(True), run, 120, shards=1, cost=2, rule="at least two runs of a program were compared"),
]
