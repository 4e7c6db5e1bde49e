"""Generators shared by the property modules: shapes, integer and real tensors.

A tensor in a case is a small JSON description (shape, kind, seed, range), so that a
case stays short, replays exactly and shrinks by shape, kind and seed.
"""
import numpy as np
from hypothesis import strategies as st

SEED = st.integers(0, 2**20)


def shapes(min_dims=0, max_dims=3, max_side=4, min_side=1):
    return st.lists(st.integers(min_side, max_side), min_size=min_dims,
                    max_size=max_dims)


@st.composite
def bcast_pair(draw, max_dims=3, max_side=4, min_dims=0):
    """Two shapes that broadcast together (numpy rules)."""
    s = draw(shapes(min_dims, max_dims, max_side))
    def cut(s):
        m = draw(st.integers(0, 5))
        if m <= 1:
            return list(s)
        k = draw(st.integers(0, len(s)))
        t = list(s[k:])
        return [1 if draw(st.booleans()) and m > 3 else d for d in t]
    a, b = list(s), cut(s)
    if draw(st.booleans()):
        a, b = b, a
    return [a, b]


def ints_desc(shape, kinds=("small", "edge", "uniform", "pow2", "const")):
    if not hasattr(shape, "example"):
        shape = st.just(list(shape))
    return st.fixed_dictionaries(
        {"shape": shape, "k": st.sampled_from(list(kinds)), "s": SEED}
    )


def int_array(d, bits, signed=True):
    """Object array of Python ints in the signed range of `bits`."""
    rng = np.random.Generator(np.random.PCG64(d["s"]))
    n = int(np.prod(d["shape"], dtype=int))
    lo, hi = -(1 << (bits - 1)), (1 << (bits - 1)) - 1
    if not signed:
        lo, hi = 0, (1 << bits) - 1

    def uni():
        return lo + int.from_bytes(rng.bytes((bits + 15) // 8), "little") % (hi - lo + 1)

    out = []
    k = d["k"]
    edges = [0, 1, -1, 2, -2, lo, lo + 1, hi, hi - 1, hi // 2, lo // 2]
    const = None
    for _ in range(n):
        if k == "small":
            v = int(rng.integers(-100, 101))
        elif k == "edge":
            v = edges[int(rng.integers(0, len(edges)))]
        elif k == "pow2":
            v = (1 << int(rng.integers(0, bits))) + int(rng.integers(-1, 2))
            if rng.integers(0, 2):
                v = -v
        elif k == "const":
            if const is None:
                const = uni()
            v = const
        else:
            v = uni()
        out.append((v - lo) % (hi - lo + 1) + lo)
    a = np.empty(n, dtype=object)
    for i, v in enumerate(out):
        a[i] = v
    return a.reshape(d["shape"])


def reals_desc(shape, lo, hi, kinds=("uniform", "integer", "tiny", "edge", "const")):
    if not hasattr(shape, "example"):
        shape = st.just(list(shape))
    return st.fixed_dictionaries({
        "shape": shape, "k": st.sampled_from(list(kinds)), "s": SEED,
        "lo": st.just(lo), "hi": st.just(hi),
    })


def real_array(d):
    rng = np.random.Generator(np.random.PCG64(d["s"]))
    lo, hi, k = float(d["lo"]), float(d["hi"]), d["k"]
    sh = d["shape"]
    if k == "uniform":
        v = rng.uniform(lo, hi, size=sh)
    elif k == "integer":
        v = np.rint(rng.uniform(lo, hi, size=sh))
    elif k == "tiny":
        v = rng.uniform(lo, hi, size=sh) * 2.0 ** rng.integers(-18, 1, size=sh)
    elif k == "edge":
        c = np.array([lo, hi, 0.0, (lo + hi) / 2, lo / 2, hi / 2, 1.0, -1.0, 0.5, -0.5])
        v = c[rng.integers(0, len(c), size=sh)]
    elif k == "const":
        v = np.full(sh, rng.uniform(lo, hi))
    else:
        raise ValueError(k)
    return np.clip(np.asarray(v, dtype=np.float64), lo, hi)


def wrap(a, bits):
    """Signed wrap of an object/integer array to `bits`."""
    m = 1 << bits
    h = 1 << (bits - 1)
    f = np.vectorize(lambda v: (int(v) + h) % m - h, otypes=[object])
    a = np.asarray(a, dtype=object)
    return f(a) if a.size else a


def obj(a):
    a = np.asarray(a)
    out = np.empty(a.shape, dtype=object)
    flat = out.reshape(-1)
    for i, v in enumerate(a.reshape(-1)):
        flat[i] = int(v)
    return flat.reshape(a.shape)


def same(got, want):
    got, want = np.asarray(got, dtype=object), np.asarray(want, dtype=object)
    return got.shape == want.shape and bool(np.all(got == want))


def first_diff(got, want):
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        return "shape %s != %s" % (got.shape, want.shape)
    bad = np.argwhere(~np.asarray(got == want, dtype=bool).reshape(got.shape))
    if not len(bad):
        return "equal"
    i = tuple(bad[0])
    return "at %s got %s want %s (%d of %d differ)" % (
        i, got[i], want[i], len(bad), max(1, got.size))
