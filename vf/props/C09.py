"""Sorting, maxima, argmax and max-pooling vs plaintext."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, prot as P
from ..core import Family, Violation, count
from ..prot import BOOL, exact, recon, recon2


def vals(draw, shape):
    return draw(gen.ints_desc(shape, ("edge", "uniform", "small", "small", "tie", "const", "sorted")))


def arr(d, bits):
    """Ring elements; "tie" has few distinct values, "sorted" runs in order."""
    if d["k"] in ("tie", "sorted"):
        rng = np.random.Generator(np.random.PCG64(d["s"]))
        n = int(np.prod(d["shape"], dtype=int))
        v = rng.integers(-1, 2, size=n) if d["k"] == "tie" else np.sort(rng.integers(-50, 50, size=n))
        if d["s"] & 1:
            v = v[::-1]
        return gen.obj(v.reshape(d["shape"]))
    return gen.int_array(d, bits)


def base(draw):
    return {"prec": draw(st.sampled_from(P.PRECS)), "scaled": draw(st.booleans()),
            "debug": draw(st.booleans()), "multi": draw(st.integers(0, 7)) == 0,
            "how": draw(st.sampled_from(["var", "tensor"]))}


@st.composite
def case_sort(draw):
    c = base(draw)
    sh = draw(st.one_of(gen.shapes(1, 3, 5), st.lists(st.integers(1, 17), min_size=1, max_size=1)))
    c.update(x=vals(draw, sh), ax=draw(st.integers(-3, 2)), acc=draw(st.booleans()),
             op=draw(st.sampled_from(["sort", "sort", "max_net", "max_net_keep"])), none=draw(st.integers(0, 5)) == 0)
    return c


@st.composite
def case_max(draw):
    c = base(draw)
    c.update(x=vals(draw, gen.shapes(1, 3, 5)), ax=draw(st.integers(-3, 2)), keep=draw(st.booleans()),
             op=draw(st.sampled_from(["max", "max_none", "argmax", "argmax_n", "both", "both_n", "pub"])))
    return c


@st.composite
def case_pool(draw):
    c = base(draw)
    h, w = draw(st.integers(1, 6)), draw(st.integers(1, 6))
    c.update(x=vals(draw, [draw(st.integers(1, 2)), draw(st.integers(1, 2)), h, w]),
             pool=[draw(st.integers(1, min(3, h))), draw(st.integers(1, min(3, w)))],
             st=[draw(st.integers(1, 3)), draw(st.integers(1, 3))], pad=draw(st.sampled_from(["SAME", "VALID"])),
             op=draw(st.sampled_from(["pool", "pool_arg", "securenn", "securenn_masked"])),
             cfg=draw(st.sampled_from(["fixed64", "fixed100"])))
    return c


def mk(p, v, c, pub=False):
    t = P.public(p, v, False) if pub else P.private(p, v, False, how=c["how"])
    t.is_scaled = c["scaled"]
    return t


def axis_of(c, nd):
    a = c["ax"]
    while not -nd <= a < nd:
        a = a - nd if a >= nd else a + nd
    return a


def word(t, want, what, scaled):
    exact(recon(t, what=what), want, what)
    if bool(t.is_scaled) != scaled:
        raise Violation("%s: scale mark %s" % (what, t.is_scaled))


def check_sort(c):
    p = P.aby3(c["prec"], debug=c["debug"], multi=c["multi"])
    n = p.default_nbits
    x = np.asarray(arr(c["x"], n - 3), dtype=object)
    if n == 128 and x.size > 12:
        return False  # too slow to be worth it
    ax = axis_of(c, x.ndim)
    X = mk(p, x, c)
    what = "%s/%d %s axis %d" % (c["op"], n, x.shape, ax)
    if c["op"] == "sort":
        w = np.sort(x, axis=ax)
        if not c["acc"]:
            w = np.flip(w, ax)
            what += " descending"
        word(p.sort(X, ax, c["acc"]), w, what, c["scaled"])
    else:
        keep = c["op"] == "max_net_keep"
        a = None if c["none"] else ax
        word(p.reduce_max(X, axis=a, keepdims=keep, method="network"),
             np.asarray(np.max(x, axis=a, keepdims=keep), dtype=object), what + " axis=%s" % (a,), c["scaled"])
    return x.shape[ax] > 1


def onehot(t, what):
    v = recon(t, what=what)
    if P.nbits_of(t) != 1 or t.is_scaled:
        raise Violation("%s: not unscaled bits" % what)
    return np.asarray(v, dtype=object)


def check_max(c):
    p = P.aby3(c["prec"], debug=c["debug"], multi=c["multi"])
    n = p.default_nbits
    op = c["op"]
    x = np.asarray(arr(c["x"], n - 2 if op != "pub" else n - 1), dtype=object)
    ax, keep = axis_of(c, x.ndim), c["keep"]
    X = mk(p, x, c, op == "pub")
    what = "%s/%d %s axis %d" % (op, n, x.shape, ax)
    if op == "pub":
        if n == 128:
            return False  # not offered by the 128-bit type
        word(p.reduce_max(X, axis=ax, keepdims=keep), np.asarray(x.max(axis=ax, keepdims=keep), dtype=object),
             what, c["scaled"])
        return x.shape[ax] > 1
    if op in ("max", "max_none"):
        a = ax if op == "max" else None
        r = X.reduce_max(axis=a) if c["x"]["s"] & 2 and not keep and a is not None else p.reduce_max(X, axis=a, keepdims=keep)
        word(r, np.asarray(np.max(x, axis=a, keepdims=keep), dtype=object), what, c["scaled"])
        return x.size > 1
    m = None
    style = "normal" if op.endswith("_n") else "onehot"
    if op.startswith("argmax"):
        i = p.argmax(X, axis=ax, output_style=style)
    else:
        m, i = p.reduce_max_with_argmax(X, axis=ax, keepdims=keep, output_style=style)
    best = np.asarray(x.max(axis=ax), dtype=object)
    if m is not None:
        word(m, np.asarray(x.max(axis=ax, keepdims=keep), dtype=object), what, c["scaled"])
    if style == "onehot":
        v = onehot(i, what)
        if v.shape != x.shape:
            raise Violation("%s: one-hot shape %s, expected %s" % (what, v.shape, x.shape))
        exact(np.asarray(v.sum(axis=ax), dtype=object), gen.obj(np.ones(best.shape)), what + " number of ones")
        exact(np.asarray((v * x).sum(axis=ax), dtype=object), best, what + " value at the marked place")
    else:
        from .. import env
        g = np.asarray(env.native(i), dtype=np.float64)
        if g.shape != best.shape:
            raise Violation("%s: index shape %s, expected %s" % (what, g.shape, best.shape))
        k = np.rint(g).astype(int)
        if np.any(abs(g - k) > 1e-3) or np.any(k < 0) or np.any(k >= x.shape[ax]):
            raise Violation("%s: not an index: %s" % (what, g.tolist()))
        at = np.take_along_axis(x, np.expand_dims(k, ax), axis=ax).squeeze(ax)
        exact(np.asarray(at, dtype=object).reshape(best.shape), best, what + " value at the index")
    return x.shape[ax] > 1


def windows(x, pool, st_, pad):
    """(out_h, out_w) list of window slices: rows, cols inside the image."""
    H, W = x.shape[2:]
    out = []
    for d, k, s in ((H, pool[0], st_[0]), (W, pool[1], st_[1])):
        if pad == "SAME":
            o = -(-d // s)
            tot = max(0, (o - 1) * s + k - d)
            b = tot // 2
        else:
            o = -(-(d - k + 1) // s)
            b = 0
        out.append([(i * s - b, i * s - b + k) for i in range(o)])
    return out


def check_pool(c):
    op = c["op"]
    pool, s, pad = c["pool"], c["st"], c["pad"]
    snn = op.startswith("securenn")
    if snn:
        p = P.two_party("securenn", c["cfg"], debug=c["debug"], multi=c["multi"])
        x = np.asarray(arr(c["x"], 22 if c["cfg"] == "fixed64" else 30), dtype=object)
        x = x * 2 if c["cfg"] == "fixed64" else x  # see the known finding of C07
        t = p.define_private_variable(np.asarray(x.astype(np.int64)), apply_scaling=False)
        t.is_scaled = c["scaled"]
        if op == "securenn_masked":
            t = p.mask(t)
    else:
        p = P.aby3(c["prec"], debug=c["debug"], multi=c["multi"])
        n = p.default_nbits
        if op == "pool_pub" and n == 128:
            return False
        x = np.asarray(arr(c["x"], n - 3), dtype=object)
        t = mk(p, x, c, op == "pool_pub")
    rows, cols = windows(x, pool, s, pad)
    H, W = x.shape[2:]
    best = np.empty(x.shape[:2] + (len(rows), len(cols)), dtype=object)
    for i, (a, b) in enumerate(rows):
        for j, (e, f) in enumerate(cols):
            w = x[:, :, max(a, 0):min(b, H), max(e, 0):min(f, W)]
            best[:, :, i, j] = w.reshape(w.shape[0], w.shape[1], -1).max(axis=2)
    what = "%s %s pool %s strides %s %s" % (op, x.shape, pool, s, pad)
    padded = pad == "SAME" and (rows[0][0] < 0 or rows[-1][1] > H or cols[0][0] < 0 or cols[-1][1] > W)
    if padded:
        count("padded pools")
    if snn:
        r = p.maxpool2d(t, pool, s, pad)
        exact(recon2(r, what), best, what)
        return pool != [1, 1]
    if op == "pool_arg":
        m, i = p.maxpool2d_with_argmax(t, pool, s, pad)
        word(m, best, what, c["scaled"])
        v = onehot(i, what)
        if v.shape != best.shape + (pool[0] * pool[1],):
            raise Violation("%s: one-hot shape %s" % (what, v.shape))
        exact(np.asarray(v.sum(axis=-1), dtype=object), gen.obj(np.ones(best.shape)), what + " number of ones")
        k = np.argmax(v.astype(int), axis=-1)
        for b, ch, y, z in np.ndindex(*best.shape):
            q = int(k[b, ch, y, z])
            yy, zz = rows[y][0] + q // pool[1], cols[z][0] + q % pool[1]
            if not (0 <= yy < H and 0 <= zz < W) or x[b, ch, yy, zz] != best[b, ch, y, z]:
                raise Violation("%s: marked place %d of window (%d,%d) does not hold the maximum"
                                % (what, q, y, z))
    else:
        word(p.maxpool2d(t, pool, s, pad), best, what, c["scaled"])
    return pool != [1, 1]


FAMILIES = [
    Family("sort", case_sort, check_sort, 120, shards=3, cost=10.0, rule="more than one element on the axis"),
    Family("maximum", case_max, check_max, 400, shards=3, cost=4.0, rule="more than one element on the axis"),
    Family("pooling", case_pool, check_pool, 160, shards=2, cost=6.0, rule="window larger than one element"),
]
