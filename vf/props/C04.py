"""Replica invariant of ABY3: after any sequence of operations the two copies of every
share agree, and every server decodes the same value (= the one the shares encode)."""
import numpy as np
import tensorflow as tf
from hypothesis import strategies as st

from .. import gen, prot as P
from ..core import Family, HarnessError, Violation, count
from ..prot import ARITH, BOOL, exact, recon
from . import C10

MAX_SIZE = 64


class Skip(Exception):
    pass


class World:
    def __init__(self, p, seed):
        self.p = p
        self.n = p.default_nbits
        self.pool = []
        self.rng = np.random.Generator(np.random.PCG64(seed))

    def pick(self, pred, like=None):
        c = [t for t in self.pool if pred(t)]
        if like is not None:
            ls = tuple(like.shape)
            c = [t for t in c if _bc(tuple(t.shape), ls)]
        if not c:
            raise Skip()
        # favour recent results, so that sequences really chain
        k = len(c) - 1 - min(int(self.rng.geometric(0.35)) - 1, len(c) - 1)
        return c[k]


def _bc(a, b):
    try:
        return np.prod(np.broadcast_shapes(a, b), dtype=int) <= MAX_SIZE
    except ValueError:
        return False


def priv(t):
    return hasattr(t, "shares")


def pub(t):
    return not priv(t)


def ar(t):
    return priv(t) and t.share_type == ARITH and P.nbits_of(t) > 1


def sc(t):
    return ar(t) and t.is_scaled


def bo(t):
    return priv(t) and t.share_type == BOOL and P.nbits_of(t) > 1


def bit(t):
    return priv(t) and P.nbits_of(t) == 1


def nd(k):
    return lambda t: len(t.shape) >= k


def both(*fs):
    return lambda t: all(f(t) for f in fs)


def full(w):
    return lambda t: P.nbits_of(t) == w.n


OPS = {}


def op(f, weight=1):
    OPS[f.__name__[3:]] = f
    return f


# arithmetic ---------------------------------------------------------------------
def _operand(w, x):
    """Second operand of an arithmetic operation: private, public or a python number."""
    k = w.rng.integers(0, 5)
    same = lambda t: P.nbits_of(t) == P.nbits_of(x) and bool(t.is_scaled) == bool(x.is_scaled)
    if k <= 2:
        return w.pick(both(ar, same), x)
    if k == 3:
        y = w.pick(both(pub, same), x)
        if np.broadcast_shapes(tuple(x.shape), tuple(y.shape)) != tuple(x.shape):
            raise Skip()
        return y
    return float(w.rng.integers(-8, 9)) / 4 if x.is_scaled else int(w.rng.integers(-5, 6))


def _bin(w, f, g):
    x = w.pick(both(ar, full(w)))
    y = _operand(w, x)
    return [f(x, y) if w.rng.integers(0, 3) else g(y, x)]


@op
def op_add(w):
    return _bin(w, lambda a, b: a + b, lambda a, b: a + b)


@op
def op_sub(w):
    return _bin(w, lambda a, b: a - b, lambda a, b: a - b)


@op
def op_mul(w):
    return _bin(w, lambda a, b: a * b, lambda a, b: a * b)


@op
def op_mul2(w):
    return op_mul(w)


@op
def op_neg(w):
    return [-w.pick(ar)]


@op
def op_square(w):
    return [w.p.square(w.pick(both(ar, full(w))))]


@op
def op_pow(w):
    return [w.p.pow(w.pick(both(ar, full(w))), int(w.rng.integers(1, 5)))]


@op
def op_add_n(w):
    x = w.pick(both(ar, full(w)))
    same = lambda t: ar(t) and full(w)(t) and tuple(t.shape) == tuple(x.shape) and t.is_scaled == x.is_scaled
    return [w.p.add_n([x] + [w.pick(same) for _ in range(int(w.rng.integers(1, 3)))])]


@op
def op_mul_trunc2(w):
    x = w.pick(both(sc, full(w)))
    return [w.p.mul_trunc2(x, w.pick(both(sc, full(w)), x))]


@op
def op_matmul(w):
    r = w.rng
    b, m, k, n = [int(q) for q in r.integers(1, 4, size=4)]
    scaled = bool(r.integers(0, 3))
    lead = () if w.n == 128 or r.integers(0, 2) else (b,)
    mk = lambda s, private: (P.private if private else P.public)(
        w.p, r.uniform(-3, 3, size=s) if scaled else gen.obj(r.integers(-9, 9, size=s)), scaled)
    if r.integers(0, 3) == 0:
        x = w.pick(both(ar, full(w), nd(2)))
        if len(x.shape) != 2:
            raise Skip()
        return [w.p.matmul(x, w.p.transpose(x))]
    kinds = [(True, True), (True, False), (False, True)][int(r.integers(0, 3))]
    return [w.p.matmul(mk(lead + (m, k), kinds[0]), mk(lead + (k, n), kinds[1]))]


@op
def op_trunc(w):
    x = w.pick(both(ar, full(w)))
    amount = [None, int(w.rng.integers(1, 20))][int(w.rng.integers(0, 2))]
    m = ["heuristic", "local", "msb0s", "msb0c"][int(w.rng.integers(0, 4))]
    if m == "msb0s":
        return [w.p.truncate_msb0(x, "secureq8", amount)]
    if m == "msb0c":
        return [w.p.truncate_msb0(x, "cheetah", amount)]
    return [w.p.truncate(x, m, amount)]


@op
def op_mul_pow2(w):
    return [w.p.mul_pow2(w.pick(sc), int(w.rng.integers(-5, 6)))]


@op
def op_div(w):
    return [w.pick(both(sc, full(w))) / float(w.rng.integers(1, 9))]


@op
def op_reduce_sum(w):
    x = w.pick(both(ar, nd(1)))
    ax = [None, int(w.rng.integers(0, len(x.shape)))][int(w.rng.integers(0, 2))]
    return [w.p.reduce_sum(x, axis=ax, keepdims=bool(w.rng.integers(0, 2)))]


@op
def op_prod(w):
    x = w.pick(both(ar, full(w), nd(1)))
    return [w.p.prod(x, axis=int(w.rng.integers(0, len(x.shape))), keepdims=bool(w.rng.integers(0, 2)))]


@op
def op_poly(w):
    x = w.pick(both(sc, full(w)))
    k = int(w.rng.integers(1, 4))
    co = [float(v) / 4 for v in w.rng.integers(-8, 9, size=k + 1)]
    if w.rng.integers(0, 3):
        return [w.p.polynomial(x, co)]
    return [w.p.multi_polynomial(x, [co, [0.5, 1.0, 0.25], [0.0, 2.0]])]


@op
def op_piecewise(w):
    return [w.p.polynomial_piecewise(w.pick(both(sc, full(w))), (-1.0, 0.5, 2.0),
                                     ((0.5,), (1.0, 0.5), (0.25, 1.0, 0.5), (0.0, 1.0)))]


@op
def op_approx(w):
    x = w.pick(both(sc, full(w), lambda t: np.prod(t.shape, dtype=int) <= 16))
    k = int(w.rng.integers(0, 9))
    if k == 0:
        return [w.p.sigmoid(x)]
    if k == 1:
        return [w.p.exp(x, ["mp-spdz", "as2019", "infinity"][int(w.rng.integers(0, 3))])]
    if k == 2:
        return [w.p.log(x)]
    if k == 3:
        return [w.p.reciprocal(x, bool(w.rng.integers(0, 2)))]
    if k == 4:
        return [w.p.inv_sqrt(x)]
    if k == 5 and len(x.shape) >= 1:
        return [w.p.softmax(x)]
    if k == 6:
        return [w.p.exp2(x)]
    if k == 7:
        return [w.p.relu_with_cmp(x)]
    return [w.p.sigmoid(x, ["3_piecewise_linear", "5_piecewise_linear"][int(w.rng.integers(0, 2))])]


# comparison and selection ---------------------------------------------------------
@op
def op_cmp(w):
    p = w.p
    x = w.pick(both(ar, full(w)))
    y = _operand(w, x)
    f = [p.greater_than, p.greater_equal, p.less_than, p.less_equal, p.equal][int(w.rng.integers(0, 5))]
    return [f(x, y)] if w.rng.integers(0, 2) or not hasattr(y, "unwrapped") else [f(y, x)]


@op
def op_equal_zero(w):
    return [w.p.equal_zero(w.pick(both(lambda t: ar(t) or bo(t), full(w))))]


@op
def op_msb(w):
    return [w.p.msb(w.pick(both(lambda t: ar(t) or bo(t), full(w))))]


@op
def op_bit_extract(w):
    return [w.p.bit_extract(w.pick(both(lambda t: ar(t) or bo(t), full(w))), int(w.rng.integers(0, w.n)))]


@op
def op_relu(w):
    return [w.p.relu(w.pick(both(ar, full(w))))]


@op
def op_select(w):
    x = w.pick(lambda t: priv(t))
    if bit(x):
        y = w.pick(bit, x)
        return [w.p.select(w.pick(bit, x), x, y)]
    if bo(x):
        same = lambda t: bo(t) and P.nbits_of(t) == P.nbits_of(x)
        return [w.p.select(w.pick(same, x), x, w.pick(same, x))]
    return [w.p.select(w.pick(bit, x), x, w.pick(both(ar, full(w), lambda t: t.is_scaled == x.is_scaled), x))]


@op
def op_maximum(w):
    x = w.pick(both(ar, full(w)))
    y = w.pick(both(ar, full(w), lambda t: t.is_scaled == x.is_scaled), x)
    if w.rng.integers(0, 2):
        return [w.p.maximum(x, y)]
    return list(w.p.cmp_swap(x, y))


small = lambda t: np.prod(t.shape, dtype=int) <= 16


@op
def op_order(w):
    p = w.p
    x = w.pick(both(ar, full(w), nd(1), small))
    ax = int(w.rng.integers(0, len(x.shape)))
    k = int(w.rng.integers(0, 6))
    if k == 0:
        return [p.sort(x, ax, bool(w.rng.integers(0, 2)))]
    if k == 1:
        return [p.reduce_max(x, axis=ax, keepdims=bool(w.rng.integers(0, 2)), method="tree")]
    if k == 2:
        return [p.reduce_max(x, axis=ax, keepdims=bool(w.rng.integers(0, 2)), method="network")]
    if k == 3:
        return [p.argmax(x, axis=ax)]
    if k == 4:
        return [p.argmax(x, axis=ax, output_style="normal")]
    return list(p.reduce_max_with_argmax(x, axis=ax))


# boolean ----------------------------------------------------------------------------
@op
def op_bool2(w):
    x = w.pick(lambda t: bo(t) or bit(t))
    n = P.nbits_of(x)
    k = int(w.rng.integers(0, 4))
    same = lambda t: (bo(t) or bit(t)) and P.nbits_of(t) == n
    y = w.pick(same, x)
    if w.rng.integers(0, 4) == 0:
        v = gen.int_array({"shape": [int(d) for d in y.shape], "k": "uniform",
                           "s": int(w.rng.integers(0, 1 << 20))}, max(n, 8))
        v = v % 2 if n == 1 else v
        y = P.public(w.p, np.asarray(v, dtype=object).reshape(y.shape), False, n)
        if np.broadcast_shapes(tuple(x.shape), tuple(y.shape)) != tuple(x.shape):
            raise Skip()
        if k == 2:
            k = 0
    if k == 0:
        return [x ^ y]
    if k == 1:
        return [x & y]
    if k == 2:
        return [x | y]
    return [~x]


@op
def op_shift(w):
    x = w.pick(lambda t: bo(t))
    s = int(w.rng.integers(0, P.nbits_of(x)))
    return [[lambda: x << s, lambda: x >> s, lambda: x.logical_rshift(s)][int(w.rng.integers(0, 3))]()]


@op
def op_lshift_arith(w):
    return [w.pick(both(ar, full(w))) << int(w.rng.integers(0, 8))]


@op
def op_ppa(w):
    x = w.pick(both(bo, full(w)))
    y = w.pick(both(bo, full(w)), x)
    return [w.p.ppa(x, y, [None, int(w.rng.integers(1, w.n + 1))][int(w.rng.integers(0, 2))],
                    ["kogge_stone", "sklansky"][int(w.rng.integers(0, 2))])]


@op
def op_carry(w):
    x = w.pick(both(bo, full(w)))
    return [w.p.carry(x, w.pick(both(bo, full(w)), x), [None, int(w.rng.integers(0, w.n))][int(w.rng.integers(0, 2))])]


@op
def op_a2b(w):
    return [w.p.a2b(w.pick(both(ar, full(w))), [None, int(w.rng.integers(1, w.n + 1))][int(w.rng.integers(0, 2))])]


@op
def op_b2a(w):
    x = w.pick(both(bo, full(w)))
    if w.rng.integers(0, 2):
        return [w.p.b2a(x)]
    return [w.p.b2a(x, nbits=[None, int(w.rng.integers(1, w.n + 1))][int(w.rng.integers(0, 2))], method="single")]


@op
def op_b2a_single(w):
    return [w.p.b2a_single(w.pick(bit))]


@op
def op_mul_ab(w):
    b = w.pick(bit)
    if w.rng.integers(0, 3) == 0:
        x = w.pick(both(pub, full(w)), b)
    else:
        x = w.pick(both(ar, full(w)), b)
    return [w.p.mul_ab(x, b)]


@op
def op_bits(w):
    p = w.p
    x = w.pick(lambda t: bo(t) and np.prod(t.shape, dtype=int) <= 12)
    n = P.nbits_of(x)
    k = int(w.rng.integers(0, 6))
    if k == 0:
        return [p.bits(x, bitsize=int(w.rng.integers(1, 9)))[..., 0]]
    if k == 1:
        return [p.bit_gather(x, int(w.rng.integers(0, n)), int(w.rng.integers(1, 8)))]
    if k == 2:
        return [p.bit_split_and_gather(x, int(2 ** w.rng.integers(0, 3)))]
    if n not in (64, 128):
        raise Skip()
    if k == 3:
        return [p.bit_reverse(x)]
    if k == 4:
        return [p.xor_indices(x)]
    return [p.pow2_from_bits(p.bits(x, bitsize=int(w.rng.integers(1, 6))))]


@op
def op_cast(w):
    x = w.pick(lambda t: bo(t) or bit(t))
    return [x.cast(P.fact([8, 16, 32, 64, 128][int(w.rng.integers(0, 5))]))]


# images -----------------------------------------------------------------------------
def _image(w, channels=None):
    v = w.rng.uniform(-4, 4, size=(1, channels or int(w.rng.integers(1, 3)), int(w.rng.integers(2, 5)),
                                   int(w.rng.integers(2, 5))))
    return P.private(w.p, v, True, ARITH, None, "tensor")


@op
def op_image(w):
    p = w.p
    x = _image(w)
    C, H, W = [int(d) for d in x.shape[1:]]
    k = int(w.rng.integers(0, 6))
    pad = ["SAME", "VALID"][int(w.rng.integers(0, 2))]
    s = [int(w.rng.integers(1, 3)), int(w.rng.integers(1, 3))]
    if k == 0:
        f = w.rng.uniform(-1, 1, size=(2, 2, C, 2))
        f = P.private(p, f, True, ARITH, None, "tensor") if w.rng.integers(0, 2) else P.public(p, f)
        r = p.conv2d(x, f, s, pad)
    elif k == 1:
        r = p.maxpool2d(x, [2, 2], s, pad)
    elif k == 2:
        r = p.avgpool2d(x, [2, 2], s, pad)
    elif k == 3:
        return [t for t in p.maxpool2d_with_argmax(x, [2, 2], s, pad)]
    elif k == 4:
        r = p.im2patches(x, [2, 2], s, pad)
    else:
        r = p.expand(x[0, 0], int(w.rng.integers(1, 3)))
    return [r]


# structure ----------------------------------------------------------------------------
@op
def op_struct(w):
    t = w.pick(lambda t: True)
    regs = [(t, np.zeros([int(d) for d in t.shape]))]
    name = (C10.COMMON + C10.ABY3_ONLY)[int(w.rng.integers(0, len(C10.COMMON + C10.ABY3_ONLY)))]
    out = C10.apply(w.p, name, int(w.rng.integers(0, 1 << 20)), regs, 0, "public" if pub(t) else "private")
    if out is None:
        raise Skip()
    return [r for r, _ in out[1]]


op_struct2 = lambda w: op_struct(w)
op_struct2.__name__ = "op_struct2"
op(op_struct2)


# entering the system -------------------------------------------------------------------
@op
def op_input(w):
    p = w.p
    v = w.rng.uniform(-8, 8, size=(2, 3)[:int(w.rng.integers(0, 3))])
    k = int(w.rng.integers(0, 4))
    share = ARITH if w.rng.integers(0, 2) else BOOL
    if k == 0:
        return [p.define_private_input("server%d" % w.rng.integers(0, 3), lambda: tf.constant(v),
                                       share_type=share)]
    if k == 1:
        x = w.pick(pub)
        return [x.to_private(share)] if hasattr(x, "to_private") else []
    if k == 2:
        # a public result is opened to every server
        return [w.pick(lambda t: priv(t)).reveal()]
    x = w.pick(both(sc, full(w)))
    y = p.define_local_computation("server%d" % w.rng.integers(0, 3), lambda a: a * 0.5, arguments=[x],
                                   apply_scaling=True, share_type=share)
    return list(y) if isinstance(y, (list, tuple)) else [y]


@op
def op_variable(w):
    x = w.pick(lambda t: priv(t))
    v = w.rng.uniform(-8, 8, size=[int(d) for d in x.shape])
    if not sc(x) or P.nbits_of(x) != w.n:
        raise Skip()
    var = P.private(w.p, v, True, ARITH)
    w.p.assign(var, x)
    return [var, var.read_value()]


@st.composite
def case(draw):
    steps = draw(st.lists(st.tuples(st.sampled_from(sorted(OPS)), gen.SEED), min_size=1, max_size=7))
    return {"prec": draw(st.sampled_from(P.PRECS)), "debug": draw(st.booleans()),
            "multi": draw(st.integers(0, 5)) == 0, "shape": draw(gen.shapes(0, 3, 3)),
            "seed": draw(gen.SEED), "steps": [list(s) for s in steps]}


def start(w, c):
    """Operands of every kind, of shapes that broadcast together."""
    p, n, sh = w.p, w.n, tuple(c["shape"])
    rng = np.random.Generator(np.random.PCG64(c["seed"]))
    real = lambda s: rng.uniform(-6, 6, size=s)
    ring = lambda s: gen.int_array({"shape": list(s), "k": "uniform", "s": int(rng.integers(0, 1 << 20))}, n)
    bits = lambda s: np.asarray(gen.obj(rng.integers(0, 2, size=s)), dtype=object).reshape(s)
    row = sh[1:] if rng.integers(0, 2) else tuple(1 for _ in sh)
    how = ["var", "tensor"][int(rng.integers(0, 2))]
    w.pool = [
        P.private(p, real(sh), True, ARITH, None, how),
        P.private(p, real(row), True, ARITH, None, "tensor"),
        P.private(p, gen.obj(rng.integers(-50, 50, size=sh)), False, ARITH, None, how),
        P.private(p, gen.obj(rng.integers(-50, 50, size=row)), False, ARITH),
        P.private(p, ring(sh), False, BOOL, None, how),
        P.private(p, ring(row), False, BOOL),
        P.private(p, bits(sh), False, BOOL, 1, how),
        P.private(p, bits(row), False, BOOL, 1),
        P.private(p, np.asarray(ring(sh) % 128, dtype=object), False, BOOL, [8, 16, 32][int(rng.integers(0, 3))]),
        P.public(p, real(sh)),
        P.public(p, gen.obj(rng.integers(-9, 9, size=sh)), False),
    ]


def inv(t, what):
    v = recon(t, what=what)
    if priv(t):
        for i in range(3):
            for j in range(2):
                if tuple(t.unwrapped[i][j].shape) != tuple(t.unwrapped[0][0].shape):
                    raise Violation("%s: share shapes differ: %s" % (
                        what, [[tuple(a.shape) for a in b] for b in t.unwrapped]))
                f = t.unwrapped[i][j].factory
                if f != t.backing_dtype:
                    raise Violation("%s: share %d.%d lives in %s, the tensor in %s"
                                    % (what, i, j, f, t.backing_dtype))
    exact(P.reveal_all(t, what), v, what + ": revealed vs encoded by the shares")
    return v


def check(c):
    p = P.aby3(c["prec"], debug=c["debug"], multi=c["multi"])
    w = World(p, 0)
    start(w, c)
    for i, t in enumerate(w.pool):
        inv(t, "initial operand %d" % i)
    did = 0
    for name, seed in c["steps"]:
        w.rng = np.random.Generator(np.random.PCG64(seed))
        try:
            out = OPS[name](w)
        except Skip:
            continue
        except Exception as e:  # pylint: disable=broad-except
            # which operand mixtures an operation accepts is not this property's concern
            count("refused %s: %s" % (name, type(e).__name__))
            continue
        for r in out:
            if not hasattr(r, "unwrapped"):
                continue
            did += 1
            inv(r, "%s result of %s" % ("private" if priv(r) else "public", name))
            if np.prod(r.shape, dtype=int) <= MAX_SIZE and len(r.shape) <= 4 and np.prod(r.shape, dtype=int) > 0:
                w.pool.append(r)
        count("op " + name)
    for i, t in enumerate(w.pool):
        recon(t, what="operand %d after the whole program" % i)
    return did >= 1


FAMILIES = [
    Family("programs", case, check, 1100, shards=8, cost=3.0, budget=70,
           rule="at least one operation produced a result whose shares were compared"),
]
