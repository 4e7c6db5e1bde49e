"""Data-movement operations act on shared values exactly as numpy on the plaintext."""
import numpy as np
import tensorflow as tf
from hypothesis import strategies as st

from .. import gen, prot as P
from ..core import Family, Violation, count
from ..prot import ARITH, BOOL, exact

COMMON = ["index", "index", "reshape", "transpose", "concat", "stack", "split", "pad", "gather",
          "expand", "squeeze", "sslice"]
ABY3_ONLY = ["tile", "reverse", "scatter", "gather_pub"]
POND_ONLY = ["s2b", "b2s"]


def ops(names):
    return st.lists(st.tuples(st.sampled_from(names), st.integers(0, 5), gen.SEED), min_size=1, max_size=5)


@st.composite
def case3(draw):
    return {"prec": draw(st.sampled_from(P.PRECS)), "share": draw(st.sampled_from([ARITH, ARITH, BOOL])),
            "nbits": draw(st.sampled_from([None, None, 8, 16, 32, 64, 128, 1])),
            "pub": draw(st.integers(0, 3)) == 0, "scaled": draw(st.booleans()),
            "v": draw(gen.ints_desc(gen.shapes(0, 4, 4), ("uniform", "small"))),
            "how": draw(st.sampled_from(["var", "tensor"])), "debug": draw(st.booleans()),
            "multi": draw(st.integers(0, 7)) == 0, "ops": [list(o) for o in draw(ops(COMMON + ABY3_ONLY))]}


@st.composite
def case2(draw):
    return {"cfg": draw(st.sampled_from(["fixed64", "fixed64_ni", "fixed100"])),
            "proto": draw(st.sampled_from(["pond", "pond", "securenn"])),
            "t": draw(st.sampled_from(["private", "private", "public", "masked", "masked"])),
            "scaled": draw(st.booleans()),
            "v": draw(gen.ints_desc(gen.shapes(0, 4, 4), ("uniform", "small"))),
            "how": draw(st.sampled_from(["var", "tensor"])), "debug": draw(st.booleans()),
            "multi": draw(st.integers(0, 7)) == 0, "ops": [list(o) for o in draw(ops(COMMON + POND_ONLY))]}


def rnd_slice(rng, shape):
    """A numpy/TensorFlow basic index and its plain description."""
    out = []
    dims = list(shape)
    ell = rng.integers(0, 4) == 0
    n = int(rng.integers(0, len(dims) + 1))
    used = 0
    cut = int(rng.integers(0, n + 1)) if ell else -1
    for i in range(n):
        if i == cut:
            out.append(Ellipsis)
            used += len(dims) - n
        d = dims[used]
        r = int(rng.integers(0, 6))
        if r == 0:
            out.append(int(rng.integers(-d, d)))
        elif r == 1:
            out.append(slice(None))
        elif r == 2:
            a = int(rng.integers(0, d))
            out.append(slice(a, int(rng.integers(a + 1, d + 1))))
        elif r == 3:
            out.append(slice(None, None, int(rng.integers(1, 3))))
        elif r == 4:
            out.append(slice(None, None, -1))
        else:
            out.append(slice(-int(rng.integers(1, d + 1)), None))
        used += 1
        if rng.integers(0, 8) == 0:
            out.append(None)
    if n == cut:
        out.append(Ellipsis)
    if len(out) == 1 and rng.integers(0, 2):
        return out[0]
    return tuple(out)


def apply(p, op, seed, regs, k, world):
    """Returns a list of (tensor, expected) or None."""
    rng = np.random.Generator(np.random.PCG64(seed))
    t, v = regs[k % len(regs)]
    nd, sh = v.ndim, v.shape
    meth = bool(rng.integers(0, 2))
    if v.size == 0:
        return None
    if op == "index":
        s = rnd_slice(rng, sh)
        w = v[s]
        return "%s%s" % (op, s), [(t[s], w)]
    if op == "reshape":
        f, rest = [], v.size
        while rest > 1 and len(f) < 4:
            d = [q for q in range(1, rest + 1) if rest % q == 0][int(rng.integers(0, 2)) and -1]
            d = int(rng.choice([q for q in range(1, rest + 1) if rest % q == 0]))
            f.append(d)
            rest //= d
        if rest > 1:
            f.append(rest)
        if f and rng.integers(0, 2):
            f[int(rng.integers(0, len(f)))] = -1
        r = t.reshape(f) if meth else p.reshape(t, f)
        return "%s%s" % (op, f), [(r, v.reshape(f))]
    if op == "transpose":
        perm = None if rng.integers(0, 3) == 0 else [int(q) for q in rng.permutation(nd)]
        if nd == 0:
            return None
        r = t.transpose(perm) if meth else p.transpose(t, perm)
        return "%s%s" % (op, perm), [(r, np.transpose(v, perm))]
    if op == "concat":
        if nd == 0:
            return None
        ax = int(rng.integers(0, nd))
        c = [q for q in regs if q[1].ndim == nd and all(a == b for i, (a, b) in enumerate(zip(q[1].shape, sh)) if i != ax)]
        xs = [c[int(rng.integers(0, len(c)))] for _ in range(int(rng.integers(1, 4)))]
        return "%s axis %d of %d" % (op, ax, len(xs)), [
            (p.concat([q[0] for q in xs], axis=ax), np.concatenate([q[1] for q in xs], axis=ax))]
    if op == "stack":
        ax = int(rng.integers(-nd - 1, nd + 1))
        c = [q for q in regs if q[1].shape == sh]
        xs = [c[int(rng.integers(0, len(c)))] for _ in range(int(rng.integers(1, 4)))]
        return "%s axis %d of %d" % (op, ax, len(xs)), [
            (p.stack([q[0] for q in xs], axis=ax), np.stack([q[1] for q in xs], axis=ax))]
    if op == "split":
        if nd == 0:
            return None
        ax = int(rng.integers(0, nd))
        d = sh[ax]
        if rng.integers(0, 2):
            n = int(rng.choice([q for q in range(1, d + 1) if d % q == 0]))
            parts, idx = n, n
        else:
            a = int(rng.integers(0, d + 1)) if d > 1 else d
            a = max(1, a)
            parts = [a, d - a] if d - a else [a]
            idx = list(np.cumsum(parts))[:-1]
        rs = p.split(t, parts, axis=ax)
        ws = np.split(v, idx, axis=ax)
        if len(rs) != len(ws):
            raise Violation("split gave %d parts, expected %d" % (len(rs), len(ws)))
        return "split %s axis %d" % (parts, ax), list(zip(rs, ws))
    if op == "pad":
        if nd == 0 or world == "masked":
            return None
        pads = [[int(rng.integers(0, 3)), int(rng.integers(0, 3))] for _ in range(nd)]
        return "pad %s" % pads, [(p.pad(t, pads), np.pad(v, pads, constant_values=0))]
    if op in ("gather", "gather_pub"):
        if nd == 0:
            return None
        ax = int(rng.integers(0, nd))
        idx = [int(q) for q in rng.integers(0, sh[ax], size=int(rng.integers(1, 5)))]
        if op == "gather_pub":
            n = P.nbits_of(t)
            if n not in (32, 64):  # indices live in the tensor's own factory
                return None
            ii = p.define_constant(np.array(idx, dtype={32: np.int32, 64: np.int64}[n]),
                                   apply_scaling=False, factory=P.fact(n))
        else:
            ii = idx
        return "%s %s axis %d" % (op, idx, ax), [(p.gather(t, ii, axis=ax), np.take(v, idx, axis=ax))]
    if op == "expand":
        ax = int(rng.integers(-nd - 1, nd + 1))
        r = t.expand_dims(axis=ax) if meth else p.expand_dims(t, axis=ax)
        return "expand_dims %d" % ax, [(r, np.expand_dims(v, ax))]
    if op == "squeeze":
        ones = [i for i in range(nd) if sh[i] == 1]
        if rng.integers(0, 2) or not ones:
            return "squeeze", [(p.squeeze(t), np.squeeze(v))]
        ax = [int(q) for q in rng.choice(ones, size=int(rng.integers(1, len(ones) + 1)), replace=False)]
        return "squeeze %s" % ax, [(p.squeeze(t, axis=ax), np.squeeze(v, tuple(ax)))]
    if op == "sslice":
        if nd == 0:
            return None
        b, e, s = [], [], []
        for d in sh:
            q = int(rng.integers(0, d))
            b.append(q)
            e.append(int(rng.integers(q + 1, d + 1)))
            s.append(int(rng.integers(1, 3)))
        w = v[tuple(slice(x, y, z) for x, y, z in zip(b, e, s))]
        if rng.integers(0, 2):
            return "strided_slice %s %s %s" % (b, e, s), [(p.strided_slice(t, b, e, s), w)]
        w = v[tuple(slice(x, y) for x, y in zip(b, e))]
        return "strided_slice %s %s" % (b, e), [(p.strided_slice(t, b, e), w)]
    if op == "tile":
        if nd == 0 or P.nbits_of(t) == 1:  # the boolean factory has no tile
            return None
        m = [int(q) for q in rng.integers(1, 3, size=nd)]
        return "tile %s" % m, [(p.tile(t, m), np.tile(v, m))]
    if op == "reverse":
        if nd == 0 or world == "public" or P.nbits_of(t) == 1:
            return None
        ax = [int(q) for q in range(nd) if rng.integers(0, 2)] or [0]
        return "reverse %s" % ax, [(p.reverse(t, ax), np.flip(v, tuple(ax)))]
    if op == "scatter":
        if nd != 1 or world == "public" or P.nbits_of(t) == 1:
            return None
        n = sh[0] + int(rng.integers(0, 3))
        idx = [[int(q)] for q in rng.permutation(n)[:sh[0]]]
        w = np.zeros(n, dtype=object)
        for i, q in enumerate(idx):
            w[q[0]] = v[i]
        return "scatter_nd %s" % idx, [(p.scatter_nd(tf.constant(idx), t, [n]), w)]
    if op == "s2b":
        if nd != 4:
            return None
        bs = [int(rng.integers(1, 3)), int(rng.integers(1, 3))]
        pads = [[0, (-sh[1]) % bs[0]], [0, (-sh[2]) % bs[1]]]
        r = p.space_to_batch(t, bs, pads)
        vp = np.pad(v, [(0, 0)] + [tuple(q) for q in pads] + [(0, 0)], constant_values=0)
        B, H, W, C = vp.shape
        w = vp.reshape(B, H // bs[0], bs[0], W // bs[1], bs[1], C).transpose(2, 4, 0, 1, 3, 5)
        return "space_to_batch %s %s" % (bs, pads), [(r, w.reshape(B * bs[0] * bs[1], H // bs[0], W // bs[1], C))]
    if op == "b2s":
        if nd != 4:
            return None
        cand = [(a, b) for a in (1, 2) for b in (1, 2) if sh[0] % (a * b) == 0]
        a, b = cand[int(rng.integers(0, len(cand)))]
        B = sh[0] // (a * b)
        w = v.reshape(a, b, B, sh[1], sh[2], sh[3]).transpose(2, 3, 0, 4, 1, 5)
        w = w.reshape(B, sh[1] * a, sh[2] * b, sh[3])
        crops = [[0, int(rng.integers(0, 2)) if w.shape[1] > 1 else 0], [0, 0]]
        w = w[:, :w.shape[1] - crops[0][1]]
        return "batch_to_space %s %s" % ((a, b), crops), [(p.batch_to_space(t, [a, b], crops), w)]
    raise AssertionError(op)


def drive(p, t, v, c, world, rd, same):
    regs = [(t, v)]
    did = 0
    for op, k, seed in c["ops"]:
        out = apply(p, op, seed, regs, k, world)
        if out is None:
            continue
        what, res = out
        what = "%s %s of %s" % (world, what, regs[k % len(regs)][1].shape)
        did += 1
        count("op " + op)
        for r, w in res:
            w = np.asarray(w, dtype=object)
            exact(rd(r, what), w, what)
            if tuple(int(d) for d in r.shape) != w.shape:
                raise Violation("%s: static shape %s, expected %s" % (what, r.shape, w.shape))
            same(r, what)
            if len(regs) < 12 and w.size and w.size < 400 and getattr(r, "dispatch_id", 0) == getattr(t, "dispatch_id", 0):
                regs.append((r, w))
    for r, w in regs:
        exact(rd(r, "afterwards"), w, "%s value changed by a later operation" % world)
    return did >= 1


def check3(c):
    p = P.aby3(c["prec"], debug=c["debug"], multi=c["multi"])
    n = c["nbits"] or p.default_nbits
    share = BOOL if n == 1 else c["share"]
    if n == 1:
        v = gen.obj(gen.int_array(c["v"], 8).astype(np.int64) & 1)
    else:
        v = gen.int_array(c["v"], n)
    if c["pub"]:
        t = P.public(p, v, False, nbits=c["nbits"], how="const" if c["how"] == "var" else "var")
    else:
        t = P.private(p, v, False, share, c["nbits"], how=c["how"])
    sc = c["scaled"] and n == p.default_nbits
    t.is_scaled = sc

    def same(r, what):
        if bool(r.is_scaled) != sc:
            raise Violation("%s: scale mark changed to %s" % (what, r.is_scaled))
        if hasattr(r, "shares") == c["pub"]:
            raise Violation("%s: became %s" % (what, type(r)))
        if not c["pub"] and r.share_type != share:
            raise Violation("%s: share type %s" % (what, r.share_type))
        if P.nbits_of(r) != n:
            raise Violation("%s: width %d" % (what, P.nbits_of(r)))

    return drive(p, t, v, c, "public" if c["pub"] else "private",
                 lambda r, what: P.recon(r, what=what), same)


def check2(c):
    p = P.two_party(c["proto"], c["cfg"], debug=c["debug"], multi=c["multi"])
    v = gen.int_array(c["v"], 32)
    a = np.asarray(v.astype(np.int64)).reshape(v.shape)
    m = P.modulus(p)
    if c["t"] == "public":
        t = p.define_constant(a, apply_scaling=False) if c["how"] == "var" else \
            p.define_public_variable(a, apply_scaling=False)
    else:
        t = p.define_private_variable(a, apply_scaling=False)
        if c["how"] == "tensor":
            t = t.read_value()
    t.is_scaled = c["scaled"]
    if c["t"] == "masked":
        t = p.mask(t)

    def same(r, what):
        if bool(r.is_scaled) != c["scaled"]:
            raise Violation("%s: scale mark changed to %s" % (what, r.is_scaled))
        # re-blocking a masked tensor yields a private one
        if r.dispatch_id != c["t"] and not (c["t"] == "masked" and "_to_" in what
                                            and r.dispatch_id == "private"):
            raise Violation("%s: became %s" % (what, r.dispatch_id))

    def rd(r, what):
        e = P.recon2(r, what)
        if hasattr(r, "alpha_on_0"):
            k = P.ints2(r.a)
            exact((P.ints2(r.a0) + P.ints2(r.a1)) % m, k, what + " mask shares")
            for al in (r.alpha_on_0, r.alpha_on_1):
                exact(P.signed(P.ints2(al) + k, m), e, what + " masked value")
        return e

    return drive(p, t, v, c, c["t"], rd, same)


FAMILIES = [
    Family("replicated", case3, check3, 2400, shards=5, cost=1.0, rule="at least one operation applied"),
    Family("two_party", case2, check2, 1800, shards=3, cost=1.0, rule="at least one operation applied"),
]
