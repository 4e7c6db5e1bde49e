"""Masks are fresh: however often and in whichever order values are shared, re-shared or
combined, no two of the results (and no two elements of one) use the same randomness.

Collisions of full-width words are what is looked for: with w words in a case a false alarm
has probability below w^2 / 2^65 (w is a few thousand at most)."""
import numpy as np
import tensorflow as tf
from hypothesis import strategies as st

from .. import env, gen, prot as P
from ..core import Family, Violation, count
from ..env import tfe
from ..prot import ARITH, BOOL


class Fresh:
    """Words seen so far; each must be new."""

    def __init__(self):
        self.seen = {}
        self.words = 0

    def add(self, word, where):
        self.words += 1
        if word in self.seen:
            raise Violation("the same randomness twice: %s and %s" % (self.seen[word], where))
        self.seen[word] = where

    def array(self, a, where, key=None):
        a = np.asarray(a, dtype=object)
        for i in np.ndindex(*a.shape):
            self.add((key, int(a[i])), "%s%s" % (where, list(i)))


def rows(a):
    """Arrays of bits (or bytes): one word per row, so that collisions are meaningful."""
    a = np.asarray(a, dtype=object)
    a = a.reshape(a.shape[0], -1) if a.ndim > 1 else a.reshape(1, -1)
    out = np.empty([a.shape[0]], dtype=object)
    for i, r in enumerate(a):
        v = 1
        for b in r:
            v = (v << 8) | (int(b) & 255)
        out[i] = v
    return out


# ------------------------------------------------------------------------- sharing
SHARE3 = ["var", "input", "local"]
SHARE2 = ["var", "input", "local"]


@st.composite
def scase(draw):
    kind = draw(st.sampled_from(["l", "l", "h", "pond", "securenn", "pond100"]))
    return {"kind": kind, "debug": draw(st.booleans()), "multi": draw(st.integers(0, 3)) == 0,
            "inst": draw(st.integers(1, 2)),
            "steps": [list(s) for s in draw(st.lists(st.tuples(
                st.sampled_from(SHARE3 if kind in "lh" else SHARE2), gen.shapes(0, 3, 4), st.booleans(),
                st.integers(0, 2), st.integers(0, 2)), min_size=2, max_size=10))],
            "traced": draw(st.integers(0, 2)) == 0}


def words3(x):
    return [P.ints(x.unwrapped[i][0]) for i in range(3)]


def words2(x):
    return [P.ints2(s) for s in x.unwrapped]


def srun(c):
    k = c["kind"]
    three = k in ("l", "h")
    if three:
        ps = [P.aby3(k, debug=c["debug"], multi=c["multi"])]
        ps += [tfe.protocol.ABY3(fixedpoint_config=k) for _ in range(c["inst"] - 1)]
    else:
        cfg = "fixed100" if k == "pond100" else "fixed64"
        kind = "securenn" if k == "securenn" else "pond"
        ps = [P.two_party(kind, cfg, debug=c["debug"], multi=c["multi"])]
        ps += [type(ps[0])(fixedpoint_config=ps[0].fixedpoint_config) for _ in range(c["inst"] - 1)]
    fresh = Fresh()
    n = 0
    for step, (how, shape, boolean, val, who) in enumerate(c["steps"]):
        p = ps[step % len(ps)]
        tfe.set_protocol(p)
        v = np.full(shape, [0.0, 1.0, -2.5][val])
        share = BOOL if boolean and three else ARITH
        kw = {"share_type": share} if three else {}
        srv = "server%d" % who
        where = "step %d (%s)" % (step, how)

        def make():
            if how == "var":
                return p.define_private_variable(np.array(v), **kw)
            if how == "input":
                return p.define_private_input(srv, lambda: tf.constant(v), **kw)
            q = p.define_local_computation(srv, lambda a: a * 2.0, arguments=[p.define_constant(np.array(v))], **kw)
            return q[0] if isinstance(q, (list, tuple)) else q
        if c["traced"] and how == "input" and not c["debug"] and k != "pond100":
            f = tfe.function(make)
            xs = [f(), f()]
        else:
            xs = [make()]
        for r, x in enumerate(xs):
            for i, w in enumerate(words3(x) if three else words2(x)):
                # the secret itself may be zero; shares of it must all be masked
                fresh.array(w, "%s run %d share %d" % (where, r, i))
                n += w.size
    count("share words", fresh.words)
    return n >= 4


# ----------------------------------------------------- masks of multiplication-like results
@st.composite
def mcase(draw):
    return {"prec": draw(st.sampled_from(["l", "l", "l", "h"])), "debug": draw(st.booleans()),
            "multi": draw(st.integers(0, 3)) == 0,
            "steps": [list(s) for s in draw(st.lists(st.tuples(
                st.sampled_from(["mul", "mul", "square", "matmul", "and", "conv", "bmm"]), gen.bcast_pair(3, 3),
                st.integers(1, 3), st.booleans(), gen.SEED, st.integers(0, 2)), min_size=1, max_size=5))],
            "again": draw(st.booleans())}


def mrun(c):
    p = P.aby3(c["prec"], debug=c["debug"], multi=c["multi"])
    n = p.default_nbits
    fresh = Fresh()
    fns = {}
    for step, (op, (sa, sb), times, tile, seed, mode) in enumerate(c["steps"]):
        share = BOOL if op == "and" else ARITH
        rng = np.random.Generator(np.random.PCG64(seed))
        if op == "matmul":
            sa, sb = [2, 3], [3, 2]
        elif op == "bmm":
            if n == 128:
                continue
            sa, sb = [([3, 2, 2], [3, 2, 2]), ([2, 2], [3, 2, 2]), ([1, 2, 2], [3, 2, 2]), ([3, 2, 2], [2, 2])][seed % 4]
        elif op == "conv":
            sa, sb = [2, 1, 3, 3], [2, 2, 1, 2]
        elif op == "square":
            sb = sa

        def mk(s):
            v = gen.int_array({"shape": [1] * len(s) if tile else s, "k": "small", "s": int(rng.integers(0, 1 << 20))}, 20)
            x = P.private(p, v, False, share)
            if tile and s:
                x = p.tile(x, [int(d) for d in s])
            return x

        if tile and op in ("matmul", "bmm", "conv", "mul", "and", "square") and (0 in sa or 0 in sb):
            continue
        x, y = mk(sa), mk(sb)
        f = {"mul": lambda a, b: p.mul(a, b), "square": lambda a, b: p.square(a),
             "matmul": lambda a, b: p.matmul(a, b), "bmm": lambda a, b: p.matmul(a, b),
             "and": lambda a, b: p.and_(a, b), "conv": lambda a, b: p.conv2d(a, b, (1, 1), "SAME")}[op]
        if mode == 0:
            # one traced function, called in several steps and in between eager operations
            g = fns.setdefault(op, tfe.function(f)) if c["again"] else tfe.function(f)
            zs = [g(x, y) for _ in range(times)]
        else:
            zs = []
            for _ in range(times):
                env.clear_memo()
                zs.append(f(x, y))
        xs, ys = words3(x), words3(x if op == "square" else y)
        for r, z in enumerate(zs):
            zw = words3(z)
            for i in range(3):
                j = (i + 1) % 3
                # the mask: the result minus what the party computes by itself
                if op == "and":
                    t = (xs[i] & ys[i]) ^ (xs[i] & ys[j]) ^ (xs[j] & ys[i])
                    a = zw[i] ^ t
                    a = P.wrapn(np.asarray(a, dtype=object), n)
                else:
                    def prod(u, w):
                        if op in ("mul", "square"):
                            return u * w
                        if op in ("matmul", "bmm"):
                            return np.matmul(u, w)
                        return None
                    t = prod(xs[i], ys[i])
                    if t is None:
                        # convolution: equal windows of equal shares make equal products
                        a = zw[i]
                    else:
                        t = t + prod(xs[i], ys[j]) + prod(xs[j], ys[i])
                        a = zw[i] - t
                    a = P.wrapn(np.asarray(a, dtype=object), n)
                fresh.array(np.asarray(a, dtype=object), "step %d %s run %d share %d" % (step, op, r, i))
    count("masks", fresh.words)
    return fresh.words >= 6


# ------------------------------------------------------------ the same operation again
def R3():
    """Operations on tensors whose elements all have the same shares."""
    def am(p, x, y):
        return [p.mul(x, y)]
    return {
        "mul": am,
        "trunc_local": lambda p, x, y: [p.truncate(x, "local", 5)],
        "trunc_heur": lambda p, x, y: [p.truncate(x, "heuristic", 5)],
        "msb0_q8": lambda p, x, y: [p.truncate_msb0(x, "secureq8", 5)],
        "msb0_ch": lambda p, x, y: [p.truncate_msb0(x, "cheetah", 5)],
        "mul_trunc2": lambda p, x, y: [p.mul_trunc2(x, y)],
        "a2b": lambda p, x, y: [p.a2b(x)],
        "b2a": lambda p, x, y: [p.b2a(p.a2b(x))],
        "b2a_single": lambda p, x, y: [p.b2a_single(p.msb(x))],
        "gt": lambda p, x, y: [p.greater_than(x, y)],
        "eq": lambda p, x, y: [p.equal(x, y)],
        "msb": lambda p, x, y: [p.msb(x)],
        "relu": lambda p, x, y: [p.relu(x)],
        "max": lambda p, x, y: [p.maximum(x, y)],
        "select": lambda p, x, y: [p.select(p.msb(x), x, y)],
        "mul_ab": lambda p, x, y: [p.mul_ab(x, p.msb(y))],
        "mul_ab_pub": lambda p, x, y: [p.mul_ab(p.define_constant(np.ones([int(d) for d in x.shape])), p.msb(y))],
        "poly": lambda p, x, y: [p.polynomial(x, [1.0, 0.5, 0.25])],
        "div": lambda p, x, y: [x / 3.0],
        "pow": lambda p, x, y: [p.pow(x, 3)],
        "bits": lambda p, x, y: [p.bit_extract(x, 3)],
        "ppa": lambda p, x, y: [p.ppa(p.a2b(x), p.a2b(y))],
        "carry": lambda p, x, y: [p.carry(p.a2b(x), p.a2b(y))],
        "or": lambda p, x, y: [p.or_(p.a2b(x), p.a2b(y))],
        "sigmoid": lambda p, x, y: [p.sigmoid(x)],
        "equal_zero": lambda p, x, y: [p.equal_zero(x)],
        "reduce_max": lambda p, x, y: [p.reduce_max(p.stack([x, y], axis=0), axis=0)],
        "pad": lambda p, x, y: [p.mul(p.pad(x, [[0, 0]] * len(x.shape)), y)],
    }


OPS3 = R3()
# element-wise: all elements must get randomness of their own
SLOW = {"sigmoid", "poly", "a2b", "b2a", "ppa", "or", "relu", "max", "gt", "reduce_max", "equal_zero", "eq"}


@st.composite
def rcase(draw):
    return {"prec": draw(st.sampled_from(["l", "l", "l", "h"])), "debug": draw(st.booleans()),
            "multi": draw(st.integers(0, 3)) == 0, "op": draw(st.sampled_from(sorted(OPS3))),
            "rows": draw(st.integers(1, 3)), "same": draw(st.booleans()),
            "runs": draw(st.integers(1, 3)), "mode": draw(st.sampled_from(["eager", "traced", "traced", "copy"])),
            "scaled": draw(st.booleans()), "v": draw(st.integers(-100, 100)), "w": draw(st.integers(-100, 100))}


COLS = 90


def rrun(c):
    p = P.aby3(c["prec"], debug=c["debug"], multi=c["multi"])
    shape = [c["rows"], COLS]

    def base(v):
        x = P.private(p, np.full([1, 1], v / 8.0), True, ARITH)
        return p.tile(x, shape)
    x = base(c["v"])
    y = x if c["same"] else base(c["w"])
    op = OPS3[c["op"]]
    f = lambda a, b: op(p, a, b)
    runs = []
    if c["mode"] == "traced":
        g = tfe.function(f)
        runs = [g(x, y) for _ in range(c["runs"])]
    else:
        for _ in range(c["runs"]):
            env.clear_memo()
            runs.append(f(x, y))
    collide(c["op"], runs)
    return c["runs"] * c["rows"] > 1 or True


def collide(op, runs):
    """Elements with the same inputs: of the three shares of two results at least two differ
    (all but one of them cannot be equal and the value too)."""
    first = runs[0][0]
    nb = P.nbits_of(first)
    mats = []
    for r, out in enumerate(runs):
        for t in out:
            w = [np.asarray(a, dtype=object) for a in words3(t)]
            if nb >= 32:
                w = [a.reshape(-1) for a in w]
            else:
                w = [rows(a.reshape(-1, a.shape[-1])) for a in w]
            mats += [(r, i, tuple(int(w[k][i]) for k in range(3))) for i in range(w[0].size)]
    for pair in ((0, 1), (1, 2), (0, 2)):
        seen = {}
        for r, i, m in mats:
            k = (m[pair[0]], m[pair[1]])
            if k in seen:
                raise Violation("%s: run %d element %d and run %d element %d have the same shares %s%s"
                                % (op, seen[k][0], seen[k][1], r, i, pair, "" if nb >= 32 else " (whole rows of bits)"))
            seen[k] = (r, i)
    count("repeated results compared", len(mats))


# ------------------------------------------------------------------- two-party protocols
def R2():
    return {
        "mul": lambda p, x, y: [p.mul(x, y)],
        "square": lambda p, x, y: [p.square(x)],
        "matmul": lambda p, x, y: [p.matmul(x, p.transpose(y))],
        "trunc": lambda p, x, y: [p.truncate(x)],
        "mask": lambda p, x, y: [p.mask(x)],
        "mulmask": lambda p, x, y: [p.mul(p.mask(x), p.mask(y))],
        "div": lambda p, x, y: [x / 3.0],
        "poly": lambda p, x, y: [p.sigmoid(x)],
        "relu": lambda p, x, y: [p.relu(x)],
        "max": lambda p, x, y: [p.maximum(x, y)],
        "less": lambda p, x, y: [p.less(x, y)],
        "msb": lambda p, x, y: [p.msb(x)],
        "select": lambda p, x, y: [p.select(p.less(x, y), x, y)],
    }


OPS2 = R2()
SNN = {"relu", "max", "less", "msb", "select"}


@st.composite
def tcase(draw):
    kind = draw(st.sampled_from(["pond", "securenn"]))
    ops = sorted(set(OPS2) - SNN) if kind == "pond" else sorted(OPS2)
    return {"kind": kind, "cfg": draw(st.sampled_from(["fixed64", "fixed64", "fixed100"])), "debug": draw(st.booleans()),
            "multi": draw(st.integers(0, 3)) == 0, "op": draw(st.sampled_from(ops)),
            "shape": [draw(st.integers(1, 3)), draw(st.integers(1, 4))], "same": draw(st.booleans()),
            "runs": draw(st.integers(1, 3)), "traced": draw(st.booleans()),
            "v": draw(st.integers(-50, 50)), "w": draw(st.integers(-50, 50))}


def clone(p, x):
    """The same shares in a new tensor object (masks belong to the object)."""
    return type(p.identity(x))(p, x.share0, x.share1, x.is_scaled)


def trun(c):
    p = P.two_party(c["kind"], c["cfg"], debug=c["debug"], multi=c["multi"])
    shape = c["shape"]

    def base(v):
        x = p.define_private_variable(np.full([1, 1], v / 8.0))
        x = p.concat([x] * shape[1], axis=1)
        return p.concat([x] * shape[0], axis=0)
    x = base(c["v"])
    y = base(c["w"])
    op = OPS2[c["op"]]
    two = (lambda a, b: op(p, a, a)) if c["same"] else (lambda a, b: op(p, a, b))
    runs = []
    if c["traced"] and c["cfg"] != "fixed100" and c["op"] != "mask":
        g = tfe.function(two)
        runs = [g(x, y) for _ in range(c["runs"])]
    else:
        for _ in range(c["runs"]):
            env.clear_memo()
            runs.append(two(p.reshape(x, shape), p.reshape(y, shape)))
    fresh = Fresh()
    for r, out in enumerate(runs):
        for t in out:
            if c["op"] == "mask":
                fresh.array(P.ints2(t.a), "run %d mask" % r, "a")
                fresh.array(P.ints2(t.a0), "run %d mask share 0" % r, "a")
                fresh.array(P.ints2(t.a1), "run %d mask share 1" % r, "a")
                fresh.array(P.ints2(t.alpha_on_0), "run %d masked value" % r, "a")
                continue
            for i, w in enumerate(words2(t)):
                fresh.array(w, "%s run %d share %d" % (c["op"], r, i))
    count("two-party words", fresh.words)
    return fresh.words >= 4


FAMILIES = [
    Family("sharing", scase, srun, 400, shards=1, cost=1, rule="at least four share words"),
    Family("masks", mcase, mrun, 260, shards=2, cost=2, rule="at least six masks compared"),
    Family("repeat", rcase, rrun, 240, shards=4, cost=4, budget=80, rule="every case compares at least two results"),
    Family("two_party", tcase, trun, 240, shards=2, cost=2, rule="at least four words compared"),
]
