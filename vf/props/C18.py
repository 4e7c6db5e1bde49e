"""The 100-bit residue-number tensors vs Python integers modulo the same modulus."""
import numpy as np
import tensorflow as tf
from hypothesis import strategies as st

from .. import gen
from ..core import Family, Violation, count
from ..env import tfe  # noqa: F401
from tf_encrypted.tensor import int100factory as F

_m1 = F.tensor(np.array([-1]))
MODULI = [int(b.numpy()[0]) + 1 for b in _m1.backing]
M = 1
for _m in MODULI:
    M *= _m
BITS = (M - 1).bit_length()


def lag(backing):
    """Signed representative from the residues (independent CRT)."""
    bs = [np.asarray(b) for b in backing]
    out = np.zeros(bs[0].shape, dtype=object)
    for b, m in zip(bs, MODULI):
        n = M // m
        out = out + gen.obj(b) * (n * pow(n, -1, m))
    return signed(out)


def signed(a):
    a = np.asarray(a, dtype=object)
    f = np.vectorize(lambda v: (int(v) % M) - M if (int(v) % M) > M // 2 else int(v) % M, otypes=[object])
    return f(a) if a.size else a


def mk(a):
    return F.tensor([tf.constant((np.asarray(a % m, dtype=object)).astype(np.int32)) for m in MODULI],
                    encode=False)


def expect(t, want, what):
    for b, m in zip(t.backing, MODULI):
        v = np.asarray(b)
        if v.size and (v.min() < 0 or v.max() >= m):
            raise Violation("%s: residue out of range for modulus %d" % (what, m))
    got, want = lag(t.backing), signed(want)
    count("elements", want.size)
    if not gen.same(got, want):
        raise Violation("%s: %s" % (what, gen.first_diff(got, want)))


OPS = ["add", "sub", "mul", "add_i", "radd_i", "sub_i", "rsub_i", "mul_i", "rmul_i",
       "negative", "matmul", "reduce_sum", "cumsum", "equal", "equal_zero", "mod",
       "truncate", "bits", "bits_pos", "decode", "encode", "stack", "concat", "gather",
       "split", "transpose", "reshape", "slice", "expand", "variable", "conv2d"]


@st.composite
def case(draw):
    a, b = draw(gen.bcast_pair(3, 4))
    return {"op": draw(st.sampled_from(OPS)), "x": draw(gen.ints_desc(a)), "y": draw(gen.ints_desc(b)),
            "k": draw(st.integers(0, 99)), "i": draw(st.integers(-10**6, 10**6)),
            "w": draw(st.sampled_from([20, 40, 64, 90, 98])),
            "f": draw(st.booleans()), "g": draw(st.booleans())}


def arr(d, bits):
    return gen.int_array(d, bits)


def check(c):
    op, k, i = c["op"], c["k"], c["i"]
    x, y = arr(c["x"], c["w"]), arr(c["y"], c["w"])
    X, Y = mk(x), mk(y)
    nd = x.ndim
    ax = k % nd if nd else None
    expect(X, x, "construct")
    if op == "add":
        expect(X + Y, x + y, op)
    elif op == "sub":
        expect(X - Y, x - y, op)
    elif op == "mul":
        expect(X * Y, x * y, op)
    elif op.endswith("_i"):
        w, g = {
            "add_i": lambda: (x + i, X + i), "sub_i": lambda: (x - i, X - i),
            "mul_i": lambda: (x * i, X * i), "radd_i": lambda: (i + x, i + X),
            "rsub_i": lambda: (i - x, i - X), "rmul_i": lambda: (i * x, i * X)}[op]()
        expect(g, w, op)
    elif op == "negative":
        expect(X.negative(), -x, op)
    elif op == "matmul":
        r = np.random.RandomState(k)
        n, p = (int(v) for v in r.randint(1, 4, size=2))
        m = int(r.choice([1, 3, 1023, 1024, 1025, 2049])) if c["f"] else int(r.randint(1, 8))
        a = arr({"shape": [n, m], "k": c["x"]["k"], "s": c["x"]["s"]}, c["w"])
        b = arr({"shape": [m, p], "k": c["y"]["k"], "s": c["y"]["s"]}, c["w"])
        expect(mk(a).matmul(mk(b)), a.dot(b), op)
    elif op == "reduce_sum":
        a = None if c["f"] or nd == 0 else ax
        expect(X.reduce_sum(a, c["g"]), np.asarray(np.sum(x, axis=a, keepdims=c["g"]), dtype=object), op)
    elif op == "cumsum":
        if nd == 0:
            return False
        w = np.flip(x, ax) if c["g"] else x
        cs = np.cumsum(w, axis=ax)
        cs = cs - w if c["f"] else cs
        expect(X.cumsum(ax, c["f"], c["g"]), np.flip(cs, ax) if c["g"] else cs, op)
    elif op in ("equal", "equal_zero"):
        shp = np.broadcast(x, y).shape if op == "equal" else x.shape
        m = np.random.RandomState(k).rand(*shp) < .5
        if op == "equal":
            # differ from x in a single residue only, or not at all
            d = np.where(m, 0, M // MODULI[k % len(MODULI)]).astype(object)
            yy = signed(np.broadcast_to(x, shp) + d)
            expect(X.equal(mk(yy)), gen.obj(m * 1), op)
        else:
            z = np.where(m, 0, M // MODULI[k % len(MODULI)]).astype(object)
            expect(mk(z).equal_zero(), gen.obj(m * 1), op)
    elif op == "mod":
        q = [2, 3, 1000, 2**16, 2**10 + 1, 107][k % 6]
        expect(X % q, np.asarray(x % q, dtype=object), op)
    elif op == "truncate":
        a = k % 17
        expect(X.truncate(a), np.asarray(x // 2**a, dtype=object), op)
        expect(X.right_shift(a), np.asarray(x // 2**a, dtype=object), "right_shift")
        expect(X.truncate(k % 9, base=3), np.asarray(x // 3**(k % 9), dtype=object), "truncate base 3")
    elif op in ("bits", "bits_pos"):
        if op == "bits":
            g, u = X.bits(), np.asarray(x % (1 << BITS), dtype=object)
        else:
            g, u = X.bits(ensure_positive_interpretation=True), np.asarray(x % M, dtype=object)
        w = np.stack([np.asarray((u >> j) & 1, dtype=object) for j in range(BITS)], -1)
        got = lag(g.backing)
        if got.shape[-1] < BITS or not gen.same(got[..., :BITS], w):
            raise Violation("%s: %s" % (op, gen.first_diff(got[..., :BITS], w)))
    elif op == "decode":
        z = gen.wrap(x, 32)
        g = gen.obj(mk(z).to_native().numpy())
        if not gen.same(g, z):
            raise Violation("decode: " + gen.first_diff(g, z))
    elif op == "encode":
        z = gen.wrap(x, 31)
        for v in (F.tensor(z.astype(np.int64)), F.tensor(tf.constant(z.astype(np.int32))),
                  F.constant(z.astype(np.int64))):
            expect(v, z, "encode")
    elif op == "stack":
        z = arr(dict(c["y"], shape=c["x"]["shape"]), c["w"])
        a = k % (nd + 1)
        expect(F.stack([X, mk(z)], axis=a), np.stack([x, z], axis=a), op)
    elif op == "concat":
        if nd == 0:
            return False
        z = arr(dict(c["y"], shape=c["x"]["shape"]), c["w"])
        expect(F.concat([X, mk(z)], axis=ax), np.concatenate([x, z], axis=ax), op)
    elif op == "gather":
        if nd == 0:
            return False
        idx = [int(v) for v in np.random.RandomState(k).randint(0, x.shape[ax], size=3)]
        expect(X.gather(idx, axis=ax), np.take(x, idx, axis=ax), op)
    elif op == "split":
        if nd == 0 or x.shape[ax] < 2:
            return False
        for g, w in zip(X.split([1, x.shape[ax] - 1], axis=ax), np.split(x, [1], axis=ax)):
            expect(g, w, op)
    elif op == "transpose":
        p = [int(v) for v in np.random.RandomState(k).permutation(nd)]
        expect(X.transpose(p), np.transpose(x, p), op)
    elif op == "reshape":
        expect(X.reshape([-1]), x.reshape(-1), op)
    elif op == "slice":
        if nd == 0:
            return False
        s = 1 + k % 2
        expect(X[::s], x[::s], "index")
        expect(X.strided_slice(([0] * nd, list(x.shape), [s] * nd), {}),
               x[tuple(slice(None, None, s) for _ in range(nd))], op)
    elif op == "expand":
        e = X.expand_dims(k % (nd + 1))
        expect(e, np.expand_dims(x, k % (nd + 1)), op)
        expect(e.squeeze([k % (nd + 1)]), x, "squeeze")
    elif op == "variable":
        v = F.variable(X)
        expect(v.read_value(), x, "variable")
        z = arr(dict(c["y"], shape=c["x"]["shape"]), c["w"])
        v.assign(mk(z))
        expect(v.read_value(), z, "assign")
    elif op == "conv2d":
        from .C17 import ref_patches
        r = np.random.RandomState(k)
        n, ch, o = (int(v) for v in r.randint(1, 3, size=3))
        h, w = (int(v) for v in r.randint(3, 6, size=2))
        kh, kw, sh, sw = (int(v) for v in r.randint(1, 4, size=4))
        sh, sw = min(sh, 2), min(sw, 2)
        pad = "SAME" if c["f"] else "VALID"
        a = arr({"shape": [n, ch, h, w], "k": c["x"]["k"], "s": c["x"]["s"]}, c["w"])
        b = arr({"shape": [kh, kw, ch, o], "k": c["y"]["k"], "s": c["y"]["s"]}, c["w"])
        P = ref_patches(a, kh, kw, sh, sw, pad)
        want = np.transpose(np.tensordot(P, b, axes=([3, 4, 5], [0, 1, 2])), (0, 3, 1, 2))
        expect(mk(a).conv2d(mk(b), [sh, sw], pad), want, op)
    return x.size > 0


@st.composite
def scase(draw):
    return {"how": draw(st.sampled_from(["uniform", "seeded", "bounded"])),
            "bits": draw(st.integers(1, 95)), "s": draw(gen.SEED)}


def scheck(c):
    """Samples are elements of the ring (bounded: below the bound); each residue covers its range."""
    n = 3000
    if c["how"] == "bounded":
        t = F.sample_bounded([n], c["bits"])
        v = lag(t.backing)
        if min(v) < 0 or max(v) >= 2 ** c["bits"]:
            raise Violation("bounded sample out of [0, 2^%d)" % c["bits"])
        if c["bits"] >= 4 and not (max(v) >= 2 ** c["bits"] * 7 // 8 and min(v) < 2 ** c["bits"] // 8):
            raise Violation("bounded sample does not cover its range")
        for j in range(c["bits"]):
            ones = int(sum((int(a) >> j) & 1 for a in v))
            if abs(ones - n / 2) > 8 * (n ** .5) / 2:
                raise Violation("bit %d of bounded samples is biased: %d of %d" % (j, ones, n))
        return True
    if c["how"] == "uniform":
        t = F.sample_uniform([n])
    else:
        from tf_encrypted.operations import secure_random as sr
        seed = sr.secure_seed()
        t = F.sample_seeded_uniform([n], seed)
        u = F.sample_seeded_uniform([n], seed)
        if not gen.same(lag(t.backing), lag(u.backing)):
            raise Violation("seeded sample is not a function of its seed")
    for b, m in zip(t.backing, MODULI):
        v = np.asarray(b)
        if v.min() < 0 or v.max() >= m:
            raise Violation("sampled residue outside [0,%d)" % m)
        # eight equal cells of the residue's range
        h = np.bincount((v.astype(np.int64) * 8) // m, minlength=8)
        chi = float(np.sum((h - n / 8) ** 2) / (n / 8))
        if chi > 90:  # 7 degrees of freedom: p < 1e-16
            raise Violation("residue modulo %d is not uniform: cells %s" % (m, h.tolist()))
    return True


FAMILIES = [
    Family("crt_ops", case, check, quick=6000, shards=8, budget=90,
           rule="one residue-number operation on generated elements up to 98 bits against Python "
                "integers; non-trivial when the tensor is non-empty and the operation applies"),
    Family("crt_sampling", scase, scheck, quick=40, shards=1, budget=60,
           rule="one sampling call of 3000 elements: range, coverage and per-residue chi-square"),
]
