"""Bit-level kernels on packed integers: gather, split, reversal, index xor, binarise."""
import numpy as np
import tensorflow as tf
from hypothesis import strategies as st

from .. import gen
from ..core import Family, Violation, count
from ..env import tfe  # noqa: F401
from .C19 import mk, unraw
from tf_encrypted.tensor import factories

DT = {8: np.int8, 16: np.int16, 32: np.int32, 64: np.int64}


@st.composite
def case(draw):
    w = draw(st.sampled_from([8, 16, 32, 64, 64, 128, 128]))
    op = draw(st.sampled_from(["gather", "split", "reverse", "xor", "roundtrip", "bits"]))
    if (op in ("reverse", "xor") and w < 64) or (op == "bits" and w < 32):
        op = "gather"  # not offered at that width
    return {"w": w, "op": op, "x": draw(gen.ints_desc(draw(gen.shapes(0, 3, 5)))),
            "start": draw(st.integers(0, w - 1)), "stride": draw(st.integers(1, w)),
            "ls": draw(st.integers(0, {8: 3, 16: 4, 32: 5, 64: 6, 128: 7}[w])),
            "big": draw(st.integers(0, 9))}


def ref_gather(u, w, start, stride):
    out = 0
    for i, d in enumerate(range(start, w, stride)):
        if (u >> d) & 1:
            out |= 1 << i
    return out


def vec(f, a):
    a = np.asarray(a, dtype=object)
    return np.vectorize(f, otypes=[object])(a) if a.size else a


def check(c):
    w, op = c["w"], c["op"]
    d = dict(c["x"])
    if c["big"] == 9:
        d["shape"] = [700, 3]
    x = gen.int_array(d, w)
    u = vec(lambda v: int(v) % (1 << w), x)
    if w == 128:
        X = mk(x)
        get = lambda t: unraw(t.value)  # noqa: E731
    else:
        X = factories[w].tensor(tf.constant(x.astype(DT[w])))
        get = lambda t: gen.obj(t.to_native().numpy())  # noqa: E731
    count("elements", x.size)

    def ex(t, want, what):
        g, wt = get(t), gen.wrap(want, w)
        if not gen.same(g, wt):
            raise Violation("%s on %d-bit: %s" % (what, w, gen.first_diff(g, wt)))

    if op == "gather":
        ex(X.bit_gather(c["start"], c["stride"]), vec(lambda v: ref_gather(v, w, c["start"], c["stride"]), u),
           "bit_gather(%d,%d)" % (c["start"], c["stride"]))
    elif op == "split":
        s = 1 << c["ls"]
        want = np.stack([vec(lambda v, j=j: ref_gather(v, w, j, s), u) for j in range(s)])
        ex(X.bit_split_and_gather(s), want, "bit_split_and_gather(%d)" % s)
    elif op == "reverse":
        ex(X.bit_reverse(), vec(lambda v: int(format(v, "0%db" % w)[::-1], 2), u), "bit_reverse")
        ex(X.bit_reverse().bit_reverse(), x, "bit_reverse twice")
    elif op == "xor":
        def xi(v):
            r = 0
            for j in range(w):
                if (v >> j) & 1:
                    r ^= j
            return r
        ex(X.xor_indices(), vec(xi, u), "xor_indices")
    elif op == "roundtrip":
        # the even and odd positions together hold exactly the original bits
        e, o = get(X.bit_gather(0, 2)), get(X.bit_gather(1, 2))
        def weave(a, b):
            r = 0
            for j in range(w // 2):
                r |= ((int(a) >> j) & 1) << (2 * j) | ((int(b) >> j) & 1) << (2 * j + 1)
            return r
        g = np.vectorize(weave, otypes=[object])(e, o) if x.size else x
        if not gen.same(np.asarray(g, dtype=object), u):
            raise Violation("even/odd gather loses bits on %d-bit" % w)
    elif op == "bits":
        if w == 128:
            t = 1 + c["start"] % 64
            g = gen.obj(X.bits(factories[64], bitsize=t).to_native().numpy())
        else:
            t = 1 + c["start"]
            g = gen.obj(X.bits(bitsize=t).to_native().numpy())
        want = np.stack([vec(lambda v, j=j: (v >> j) & 1, u) for j in range(t)], -1)
        if not gen.same(g, want):
            raise Violation("bits(%d) on %d-bit" % (t, w))
    return bool(np.any(u != 0))


FAMILIES = [
    Family("bit_kernels", case, check, quick=6000, shards=8, budget=90,
           rule="one bit-permutation kernel call on generated words (8 to 128 bits) against a "
                "bit-by-bit reference; non-trivial when some input word is non-zero"),
]
