"""Secure randomness: range, determinism in the seed, uniformity, freshness."""
import numpy as np
import tensorflow as tf
from hypothesis import strategies as st

from .. import env, gen
from ..core import Family, Violation, count
from .C19 import raw, unraw
from tf_encrypted.operations import secure_random as sr
from tf_encrypted.tensor import factories

DT = {8: tf.int8, 16: tf.int16, 32: tf.int32, 64: tf.int64}


def chi_bound(df):
    return df + 12 * (2 * df) ** 0.5 + 40  # far beyond p = 1e-14


@st.composite
def bounds(draw, bits):
    lo_t, hi_t = -(1 << (bits - 1)), (1 << (bits - 1)) - 1
    kind = draw(st.sampled_from(["full", "tiny", "twothirds", "pow2", "any", "cross"]))
    if kind == "full":
        return [lo_t, hi_t]
    if kind == "tiny":
        lo = draw(st.integers(lo_t, hi_t - 40))
        return [lo, lo + draw(st.integers(1, 40))]
    if kind == "twothirds":
        span = (1 << bits) * 2 // 3
        lo = draw(st.integers(lo_t, hi_t - span))
        return [lo, lo + span]
    if kind == "pow2":
        k = draw(st.integers(0, bits - 2))
        return [0, 1 << k]
    if kind == "cross":
        return [-draw(st.integers(1, 100)), draw(st.integers(1, 100))]
    lo = draw(st.integers(lo_t, hi_t - 1))
    return [lo, draw(st.integers(lo + 1, hi_t))]


@st.composite
def case(draw):
    bits = draw(st.sampled_from([8, 16, 32, 64, 128, 128]))
    return {"bits": bits, "b": draw(bounds(bits)), "seeded": draw(st.integers(0, 3)),
            "seed": draw(st.lists(st.integers(-2**31, 2**31 - 1), min_size=8, max_size=8)),
            "n": draw(st.sampled_from([1, 2, 7, 64, 3000, 3000, 20000])), "w": draw(st.integers(0, 7))}


def mkseed(v):
    n = int(np.prod(sr.secure_seed().shape))
    return tf.constant((v * ((n + 7) // 8))[:n], dtype=tf.int32)


def draw_vals(c, seed=None, shape=None):
    bits, (lo, hi) = c["bits"], c["b"]
    shape = shape or [c["n"]]
    if bits == 128:
        lo_t, hi_t = tf.constant(raw(np.array(lo, dtype=object))), tf.constant(raw(np.array(hi, dtype=object)))
        if seed is None:
            v = sr.i128_random_uniform(shape, lo_t, hi_t)
        else:
            v = sr.i128_seeded_random_uniform(shape, seed, lo_t, hi_t)
        return unraw(v)
    if seed is None:
        v = sr.random_uniform(shape, lo, hi, dtype=DT[bits])
    else:
        v = sr.seeded_random_uniform(shape, lo, hi, dtype=DT[bits], seed=seed)
    if v.dtype != DT[bits]:
        raise Violation("dtype of sample")
    return gen.obj(v.numpy())


def check(c):
    lo, hi = c["b"]
    span = hi - lo
    seed = mkseed(c["seed"]) if c["seeded"] else None
    v = draw_vals(c, seed)
    count("samples", v.size)
    if v.shape != (c["n"],):
        raise Violation("shape of sample %s" % (v.shape,))
    if min(v) < lo or max(v) >= hi:
        raise Violation("sample outside [%d,%d): %d..%d" % (lo, hi, min(v), max(v)))
    if seed is not None:
        if not gen.same(draw_vals(c, seed), v):
            raise Violation("two expansions of one seed differ")
        alt = list(c["seed"])
        alt[c["w"]] ^= 1 << (c["n"] % 31)
        v2 = draw_vals(c, mkseed(alt))
        if span >= 2**8 and c["n"] >= 64 and gen.same(v2, v):
            raise Violation("changing seed word %d does not change the sample" % c["w"])
        sh = draw_vals(c, seed, shape=[1, c["n"]])
        if sh.shape != (1, c["n"]):
            raise Violation("2-d shape of sample")
    else:
        v2 = draw_vals(c, None)
        if span >= 2**8 and c["n"] >= 64 and gen.same(v2, v):
            raise Violation("two unseeded samples are equal")
    n = c["n"]
    if n >= 3000:
        cells = span if span <= 64 else 32
        idx = np.array([int((int(a) - lo) * cells // span) for a in v])
        h = np.bincount(idx, minlength=cells)
        # exact cell sizes
        edges = [-(-(j * span) // cells) for j in range(cells + 1)]
        p = np.array([(edges[j + 1] - edges[j]) / span for j in range(cells)])
        chi = float(np.sum((h - n * p) ** 2 / (n * p)))
        if chi > chi_bound(cells - 1):
            raise Violation("values in [%d,%d) not uniform: chi2=%.1f cells=%s" % (lo, hi, chi, h.tolist()))
        # low-order digit
        q = 8
        if span % q == 0 or span > 2**12:
            h = np.bincount(np.array([int((int(a) - lo) % q) for a in v]), minlength=q)
            chi = float(np.sum((h - n / q) ** 2 / (n / q)))
            if chi > chi_bound(q - 1):
                raise Violation("low digit in [%d,%d) not uniform: chi2=%.1f %s" % (lo, hi, chi, h.tolist()))
        # serial correlation of successive draws (same and across two seeds)
        for a, b, what in ((idx[:-1], idx[1:], "successive"),
                           (idx, np.array([int((int(t) - lo) * cells // span) for t in v2]), "two-seed")):
            if span < 2:
                break
            a, b = a - a.mean(), b - b.mean()
            d = float(np.sqrt((a * a).sum() * (b * b).sum()))
            if d > 0 and abs(float((a * b).sum()) / d) > 9 / np.sqrt(n):
                raise Violation("%s draws are correlated" % what)
        if c["bits"] >= 64 and span >= 2**60:
            if len(set(int(a) for a in v)) < n - 2:
                raise Violation("repeated values in a full-range sample")
    return n > 1 and span > 1


@st.composite
def scase(draw):
    return {"n": draw(st.integers(50, 120))}


def scheck(c):
    env.deterministic(False)
    s = np.stack([sr.secure_seed().numpy().reshape(-1) for _ in range(c["n"])])
    if len({tuple(r) for r in s.tolist()}) != c["n"]:
        raise Violation("a fresh seed repeats")
    for j in range(s.shape[1]):
        col = s[:, j]
        if len(set(col.tolist())) < c["n"] - 2:
            raise Violation("word %d of fresh seeds repeats" % j)
        for b in range(32):
            ones = int(((col.astype(np.int64) >> b) & 1).sum())
            if abs(ones - c["n"] / 2) > 8 * c["n"] ** .5 / 2:
                raise Violation("bit %d of seed word %d is biased" % (b, j))
    return True


@st.composite
def bcase(draw):
    return {"bits": draw(st.sampled_from([8, 16, 32, 64, 128])), "t": draw(st.integers(1, 126)),
            "what": draw(st.sampled_from(["bounded", "bits", "uniform"])), "s": draw(gen.SEED)}


def bcheck(c):
    w = c["bits"]
    f = factories[w]
    get = (lambda t: unraw(t.value)) if w == 128 else (lambda t: gen.obj(t.to_native().numpy()))
    n = 2000
    if c["what"] == "bounded":
        t = 1 + (c["t"] - 1) % (w - 2)
        v, lo, hi = get(f.sample_bounded([n], t)), 0, 2**t
    elif c["what"] == "bits":
        v, lo, hi = get(f.sample_bits([n])), 0, 2
    else:
        v, lo, hi = get(f.sample_uniform([n])), -(1 << (w - 1)), 1 << (w - 1)
    if min(v) < lo or max(v) >= hi:
        raise Violation("%s sample of %d-bit ring outside [%d,%d)" % (c["what"], w, lo, hi))
    nb = (hi - lo).bit_length() - 1
    for j in range(nb):
        ones = sum(((int(a) - lo) >> j) & 1 for a in v)
        if abs(ones - n / 2) > 9 * n ** .5 / 2:
            raise Violation("bit %d of %s samples (%d-bit) is biased: %d of %d" % (j, c["what"], w, ones, n))
    return True


@st.composite
def ecase(draw):
    return {"bits": draw(st.sampled_from([8, 32, 64])), "lo": draw(st.integers(-50, 50)),
            "d": draw(st.integers(0, 40)), "seeded": draw(st.booleans())}


def echeck(c):
    """An empty range is refused, never answered with values."""
    try:
        v = draw_vals({"bits": c["bits"], "b": [c["lo"], c["lo"] - c["d"]], "n": 4},
                      mkseed([1] * 8) if c["seeded"] else None)
    except (tf.errors.InvalidArgumentError, ValueError):
        return True
    raise Violation("empty range [%d,%d) gave %s" % (c["lo"], c["lo"] - c["d"], v.tolist()))


FAMILIES = [
    Family("draws", case, check, quick=1600, shards=7, budget=90, cost=6,
           rule="one (seeded or unseeded) sampling call over a generated range and width: range, "
                "seed determinism and sensitivity, cell and low-digit chi-square, correlations; "
                "non-trivial when more than one sample and value"),
    Family("fresh_seeds", scase, scheck, quick=12, shards=1, budget=40,
           rule="50-120 fresh seeds: no repetition, no biased bit"),
    Family("factory_sampling", bcase, bcheck, quick=120, shards=1, budget=60, cost=4,
           rule="bounded/bit/uniform sampling of a ring factory: range and per-bit balance"),
    Family("empty_range", ecase, echeck, quick=40, shards=1, budget=20,
           rule="min >= max is refused"),
]
