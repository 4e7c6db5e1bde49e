"""Matrix products, convolution, average pooling and patch rearrangements vs exact arithmetic."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, prot as P
from ..core import Family, Violation, count
from ..prot import exact, recon, recon2, within
from .C03 import rescaled
from .C17 import pad_of, ref_patches

CFGS = ["fixed64", "fixed64_ni", "fixed100", "fixed100_ni"]


# ---------------------------------------------------------------------- generation
def proto(draw):
    return {"proto": draw(st.sampled_from(["aby3", "aby3", "pond", "securenn"])),
            "prec": draw(st.sampled_from(P.PRECS)), "cfg": draw(st.sampled_from(CFGS)),
            "debug": draw(st.booleans()), "multi": draw(st.integers(0, 7)) == 0}


def operand(draw, shape):
    scaled = draw(st.sampled_from([True, True, True, False]))
    return {"kind": draw(st.sampled_from(["private", "private", "private", "public", "masked"])),
            "how": draw(st.sampled_from(["var", "tensor"])), "scaled": scaled,
            "v": draw(gen.reals_desc(shape, -8, 8) if scaled else
                      gen.ints_desc(shape, ("small", "const", "uniform", "edge")))}


@st.composite
def case_mm(draw):
    c = proto(draw)
    m, k, n = (draw(st.integers(1, 5)) for _ in range(3))
    bx, by = [], []
    if draw(st.booleans()) and not (c["proto"] == "aby3" and c["prec"][0] == "h"):
        b = draw(gen.shapes(1, 2, 3))
        how = draw(st.sampled_from(["same", "same", "x", "y", "one_x", "one_y"]))
        bx = {"y": [], "one_x": [1] * len(b)}.get(how, list(b))
        by = {"x": [], "one_y": [1] * len(b)}.get(how, list(b))
        if c["cfg"].startswith("fixed100") and c["proto"] != "aby3":
            bx, by = list(b), list(b)
    c.update(x=operand(draw, bx + [m, k]), y=operand(draw, by + [k, n]))
    return c


def geometry(draw, c):
    h, w = draw(st.integers(1, 6)), draw(st.integers(1, 6))
    kh, kw = draw(st.integers(1, min(4, h))), draw(st.integers(1, min(4, w)))
    c.update(n=draw(st.integers(1, 3)), c=draw(st.integers(1, 3)), h=h, w=w, kh=kh, kw=kw,
             st=[draw(st.integers(1, 3)), draw(st.integers(1, 3))],
             pad=draw(st.sampled_from(["SAME", "VALID"])))
    return c


@st.composite
def case_conv(draw):
    c = geometry(draw, proto(draw))
    c.update(x=operand(draw, [c["n"], c["c"], c["h"], c["w"]]),
             y=operand(draw, [c["kh"], c["kw"], c["c"], draw(st.integers(1, 3))]))
    return c


@st.composite
def case_img(draw):
    c = geometry(draw, proto(draw))
    if draw(st.integers(0, 3)) == 0:  # windows tiling the image
        k = draw(st.integers(1, 3))
        c.update(kh=k, kw=k, st=[k, k], h=k * draw(st.integers(1, 3)), w=k * draw(st.integers(1, 3)))
    c.update(x=operand(draw, [c["n"], c["c"], c["h"], c["w"]]), op=draw(st.sampled_from(
        ["avg", "avg", "avg", "im2col", "patches", "back", "expand"])),
        fmt=draw(st.sampled_from(["NCHW", "NHWC"])), seq=draw(st.sampled_from([list, tuple])).__name__,
        k=draw(st.integers(1, 3)))
    return c


# ----------------------------------------------------------------------- execution
class Side:
    """One protocol instance with its way of making and reading values."""

    def __init__(self, c):
        self.three = c["proto"] == "aby3"
        if self.three:
            self.p = P.aby3(c["prec"], debug=c["debug"], multi=c["multi"])
            self.f, self.n = P.fbits(self.p), self.p.default_nbits
            self.m = 1 << self.n
            self.S = 1 << self.f
        else:
            self.p = P.two_party(c["proto"], c["cfg"], debug=c["debug"], multi=c["multi"])
            self.m = P.modulus(self.p)
            self.S = self.p.fixedpoint_config.scaling_factor
        self.read = (lambda t, w: recon(t, what=w)) if self.three else recon2

    def make(self, d):
        p = self.p
        if d["scaled"]:
            a = np.asarray(gen.real_array(d["v"]))
        elif self.three:
            a = gen.int_array(d["v"], self.n)
        else:
            a = gen.int_array(d["v"], 62)
            a = np.asarray(a.astype(np.int64)).reshape(a.shape)
        pub = d["kind"] == "public"
        if self.three:
            if pub:
                t = P.public(p, a, scaled=d["scaled"], how="const" if d["how"] == "var" else "var")
            else:
                t = P.private(p, a, scaled=d["scaled"], how=d["how"])
        else:
            kw = {"apply_scaling": d["scaled"]}
            if pub:
                t = p.define_constant(a, **kw) if d["how"] == "var" else p.define_public_variable(a, **kw)
            else:
                t = p.define_private_variable(a, **kw)
                if d["how"] == "tensor":
                    t = t.read_value()
                if d["kind"] == "masked":
                    t = p.mask(t)
        return t, np.asarray(self.read(t, "operand"), dtype=object), pub

    def product(self, t, w, both, scaled, pub, what):
        """t is the product whose exact integer value is w, rescaled when both are fixed-point."""
        got = self.read(t, what)
        w = np.asarray(w, dtype=object)
        if bool(t.is_scaled) != scaled:
            raise Violation("%s: result marked scaled=%s" % (what, t.is_scaled))
        if not both:
            return exact(got, P.wrapn(w, self.n) if self.three else P.signed(w, self.m), what)
        if self.three:
            q = np.asarray(w >> self.f, dtype=object)
            return within(got, q, q + 1, what)
        rescaled(self.p, got, [w], pub, what)


def desc(c):
    return "%s %s" % (c["proto"], c["prec"] if c["proto"] == "aby3" else c["cfg"])


def run_mm(c):
    s = Side(c)
    x, xv, xp = s.make(c["x"])
    y, yv, yp = s.make(c["y"])
    if s.three and xp and yp:
        return False  # not offered
    what = "%s matmul %s %s x %s %s" % (desc(c), x.dispatch_id, xv.shape, y.dispatch_id, yv.shape)
    w = np.matmul(xv, yv)
    both = c["x"]["scaled"] and c["y"]["scaled"]
    t = s.p.matmul(x, y)
    s.product(t, w, both, c["x"]["scaled"] or c["y"]["scaled"], xp and yp, what)
    count("matmul %s-%s" % (x.dispatch_id, y.dispatch_id))
    return bool(np.any(w != 0))


def run_conv(c):
    s = Side(c)
    x, xv, xp = s.make(c["x"])
    y, yv, yp = s.make(c["y"])
    if (s.three and xp and yp) or (not s.three and xp != yp):
        return False  # combinations not offered
    what = "%s conv2d %s %s * %s %s strides %s %s" % (
        desc(c), x.dispatch_id, xv.shape, y.dispatch_id, yv.shape, c["st"], c["pad"])
    w = np.tensordot(ref_patches(xv, c["kh"], c["kw"], c["st"][0], c["st"][1], c["pad"]), yv,
                     axes=([3, 4, 5], [0, 1, 2]))
    w = np.asarray(np.transpose(w, (0, 3, 1, 2)), dtype=object)
    both = c["x"]["scaled"] and c["y"]["scaled"]
    t = s.p.conv2d(x, y, c["st"], c["pad"])
    s.product(t, w, both, c["x"]["scaled"] or c["y"]["scaled"], xp and yp, what)
    count("conv2d %s-%s" % (x.dispatch_id, y.dispatch_id))
    return bool(np.any(w != 0))


def counts(c):
    ones = np.ones((1, 1, c["h"], c["w"]), dtype=object)
    return ref_patches(ones, c["kh"], c["kw"], c["st"][0], c["st"][1], c["pad"]).sum(axis=(0, 3, 4, 5))


def run_img(c):
    s = Side(c)
    op = c["op"]
    if op != "avg" and not s.three:
        op = "avg"
    if op == "avg":
        c["x"]["scaled"] = True
        if c["x"]["v"].get("k") in ("small", "const", "uniform", "edge"):
            c["x"]["v"] = dict(c["x"]["v"], k="uniform", lo=-8, hi=8)
    x, xv, xp = s.make(c["x"])
    if op in ("patches", "back", "expand") and xp:
        return False  # only offered on private values
    kh, kw, pad = c["kh"], c["kw"], c["pad"]
    geo = "%s of %s %s window %dx%d strides %s %s" % (op, x.dispatch_id, xv.shape, kh, kw, c["st"], pad)
    what = "%s %s" % (desc(c), geo)
    strides = (list if c["seq"] == "list" else tuple)(c["st"])
    pool = (list if c["seq"] == "list" else tuple)((kh, kw))
    pt = ref_patches(xv, kh, kw, c["st"][0], c["st"][1], pad)  # n oh ow kh kw c
    n, oh, ow = pt.shape[:3]
    count("img " + op)
    if op == "avg":
        tot = np.asarray(np.transpose(pt.sum(axis=(3, 4)), (0, 3, 1, 2)), dtype=object)
        cnt = np.asarray(counts(c), dtype=object)
        t = s.p.avgpool2d(x, pool, strides, pad)
        got = s.read(t, what)
        prob = not s.three and s.p.fixedpoint_config.use_noninteractive_truncation and not xp
        # known finding: padded windows are divided by the full window size
        full = np.full_like(cnt, kh * kw)
        for div in ([cnt] if np.all(cnt == full) else [cnt, full]):
            a = tot * np.asarray(s.S // div, dtype=object)
            b = tot * np.asarray(-(-s.S // div), dtype=object)
            lo, hi = np.minimum(a, b) // s.S - 1, np.maximum(a, b) // s.S + 1
            if div is full or np.all((got >= lo) & (got <= hi)):
                break
        within(got, lo, hi, what, prob=prob)
        if not t.is_scaled:
            raise Violation(what + ": result not marked scaled")
        return bool(np.any(tot != 0))
    if op == "expand":
        k = c["k"]
        t = s.p.expand(x, k)
        w = np.zeros(((xv.shape[0] - 1) * k + 1, (xv.shape[1] - 1) * k + 1) + xv.shape[2:], dtype=object)
        w[::k, ::k] = xv
        exact(s.read(t, what), w, what + " by %d" % k)
        return k > 1
    if op == "im2col":
        t = s.p.im2col(x, kh, kw, strides, pad)
        # rows run over channel, window row, window column; columns over position, then image
        w = np.transpose(pt, (5, 3, 4, 1, 2, 0)).reshape(c["c"] * kh * kw, -1)
        exact(s.read(t, what), np.asarray(w, dtype=object), what)
        return True
    nhwc = c["fmt"] == "NHWC"
    src = s.p.transpose(x, [0, 2, 3, 1]) if nhwc else x
    t = s.p.im2patches(src, pool, strides, pad, data_format=c["fmt"])
    flat = pt.reshape(n, oh, ow, -1)
    w = np.asarray(flat if nhwc else np.transpose(flat, (0, 3, 1, 2)), dtype=object)
    exact(s.read(t, what + " " + c["fmt"]), w, what + " " + c["fmt"])
    if op == "back":
        # putting the patches back sums each pixel as often as it was taken
        r = s.p.patches2im(t, pool, strides, pad, img_size=(c["h"], c["w"]), data_format=c["fmt"])
        times = np.zeros((c["h"], c["w"]), dtype=object)
        _, top, _ = pad_of(c["h"], kh, c["st"][0], pad)
        _, left, _ = pad_of(c["w"], kw, c["st"][1], pad)
        for i in range(oh):
            for j in range(ow):
                for u in range(kh):
                    for v in range(kw):
                        a, b = i * c["st"][0] + u - top, j * c["st"][1] + v - left
                        if 0 <= a < c["h"] and 0 <= b < c["w"]:
                            times[a, b] += 1
        w = xv * times
        w = np.asarray(np.transpose(w, (0, 2, 3, 1)) if nhwc else w, dtype=object)
        exact(s.read(r, what), P.wrapn(w, s.n), what + " " + c["fmt"])
    return True


FAMILIES = [
    Family("matmul", case_mm, run_mm, 1300, shards=3, cost=2,
           rule="2-D and batched shapes, operand kinds and scales; non-trivial when a product is non-zero"),
    Family("conv2d", case_conv, run_conv, 900, shards=3, cost=3,
           rule="image/kernel geometry, strides, padding, operand kinds; non-trivial when non-zero"),
    Family("image", case_img, run_img, 700, shards=2, cost=2,
           rule="average pooling, im2col, patches and their inverse, dilation; non-trivial when non-zero"),
]
