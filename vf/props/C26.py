"""Gradients, losses, optimizer steps and whole training runs vs the same arithmetic in plaintext."""
import contextlib
import io

import numpy as np
import tensorflow as tf
from hypothesis import strategies as st

from .. import env, gen, nn, prot as P
from ..core import Family, Violation, count
from ..env import tfe
from ..nn import R, Outside
from ..prot import close
from . import C25

KERAS = tfe.keras.layers


# -------------------------------------------------------------- backward passes on R
def deriv(A, act, z, y, dy):
    """Gradient through an activation, given its input and output."""
    if act in (None, "linear"):
        return dy
    if act == "sigmoid":
        return A.mul(A.mul(dy, y), A.add(A.neg(y), R(np.ones(y.shape))))
    if act == "relu":
        on, off = z.v - z.e > A.u, z.v + z.e <= 0
        return R(np.where(on, dy.v, np.where(off, 0, dy.v / 2)),
                 np.where(on, dy.e, np.where(off, 0, np.abs(dy.v) / 2 + dy.e)) + A.u)
    raise ValueError(act)


def bilinear(A, B, x, y):
    """B with non-negative coefficients."""
    ax, ay = np.abs(x.v), np.abs(y.v)
    return R(B(x.v, y.v), B(ax, y.e) + B(x.e, ay) + B(x.e, y.e) + A.t)


def windows(h, w, k, s, pad):
    oh, t, b = nn.pad_amount(h, k[0], s[0], pad)
    ow, l, r = nn.pad_amount(w, k[1], s[1], pad)
    for i in range(oh):
        for j in range(ow):
            yield i, j, i * s[0] - t, j * s[1] - l


def spread(p, h, w, k, s, pad):
    """Sum of patch values (n, oh, ow, kh, kw, c) into the pixels they came from (n, c, h, w)."""
    n, c = p.shape[0], p.shape[-1]
    out = np.zeros((n, c, h, w))
    for i, j, a, b in windows(h, w, k, s, pad):
        for u in range(k[0]):
            for v in range(k[1]):
                if 0 <= a + u < h and 0 <= b + v < w:
                    out[:, :, a + u, b + v] += p[:, i, j, u, v]
    return out


def onehot(values, errs, dy):
    """Gradient of a maximum over the last axis; elements that may tie get an interval."""
    A_hi = values + errs
    best = (values - errs).max(axis=-1, keepdims=True)
    cand = A_hi >= best
    alone = cand.sum(axis=-1, keepdims=True) == 1
    v = np.where(cand, np.where(alone, dy.v[..., None], dy.v[..., None] / 2), 0)
    e = np.where(cand, np.where(alone, dy.e[..., None], np.abs(dy.v[..., None]) / 2 + dy.e[..., None]), 0)
    return R(v, e)


class Net:
    """One layer with its plaintext forward and backward pass."""

    def __init__(self, A, d, c, lazy=False):
        self.A, self.d, self.c, self.lazy = A, d, c, lazy
        self.last = c["fmt"] == "channels_last"

    def first(self, x):
        return x.map(lambda a: np.transpose(a, (0, 3, 1, 2))) if self.last else x

    def back(self, x):
        return x.map(lambda a: np.transpose(a, (0, 2, 3, 1))) if self.last else x

    def forward(self, x, ws):
        A, d = self.A, self.d
        act = d.get("act") if d["l"] != "ReLU" else "relu"
        lin = dict(d, act=None) if d["l"] != "Activation" else None
        z = C25.plain(A, lin, self.c, x, ws) if lin is not None and d["l"] != "ReLU" else x
        self.x, self.z = x, z
        self.y = nn.activation(A, act, z)
        self.act = act
        return self.y

    def backward(self, dy, ws):
        """-> gradients of the weights, gradient of the input"""
        A, d = self.A, self.d
        k = d["l"]
        dy = deriv(A, self.act, self.z, self.y, dy)
        n = self.x.shape[0]

        def norm(g):
            return A.scale(g, 1.0 / n) if self.lazy else g
        if k == "Dense":
            w = ws[0]
            gw = [norm(bilinear(A, lambda a, b: a.T @ b, self.x, dy))]
            if d["bias"]:
                gw.append(norm(A.sum(dy, 0)))
            return gw, bilinear(A, lambda a, b: a @ b.T, dy, w)
        if k in ("Activation", "ReLU"):
            return [], dy
        if k == "Reshape":
            return [], dy.map(lambda a: a.reshape(self.x.shape))
        if k == "Flatten":
            sh = self.x.shape
            if self.last or len(sh) <= 2:
                return [], dy.map(lambda a: a.reshape(sh))
            return [], dy.map(lambda a: np.moveaxis(a.reshape((sh[0],) + sh[2:] + sh[1:2]), -1, 1))
        x = self.first(self.x)
        h, w_ = x.shape[2:]
        if k == "Conv2D":
            q = self.first(dy)
            ks, s, pad = d["k"], d["st"], d["pad"].upper()

            def dw(a, b):
                # x -> patches n oh ow kh kw c;  dy n f oh ow
                return np.einsum("nijuvc,nfij->uvcf", nn.patches(a, ks[0], ks[1], s, pad), b)

            def dx(b, w):
                return spread(np.einsum("nfij,uvcf->nijuvc", b, w), h, w_, ks, s, pad)
            gw = [norm(bilinear(A, dw, x, q))]
            if d["bias"]:
                gw.append(norm(A.sum(q, (0, 2, 3))))
            return gw, self.back(bilinear(A, dx, q, ws[0]))
        if k in ("AveragePooling2D", "MaxPooling2D"):
            q = self.first(dy)
            ks, s, pad = d["k"], d["st"] or d["k"], d["pad"].upper()
            m = ks[0] * ks[1]
            b, f = q.shape[:2]
            pv = nn.patches(x.v, ks[0], ks[1], s, pad, fill=-1e9)  # n oh ow kh kw c
            if k == "AveragePooling2D":
                g = A.scale(q, 1.0 / m)
                real = (pv > -1e8).sum(axis=(3, 4))
                true = A.mul(q, R(1.0 / np.transpose(real, (0, 3, 1, 2)), A.u))
                if np.any(real < m):
                    # known finding: windows over the border divide by their full size
                    lo = np.minimum(g.v - g.e, true.v - true.e)
                    hi = np.maximum(g.v + g.e, true.v + true.e)
                    g = R((lo + hi) / 2, (hi - lo) / 2)
                each = g.map(lambda a: np.broadcast_to(np.transpose(a, (0, 2, 3, 1))[:, :, :, None, None, :], pv.shape))
            else:
                pe = nn.patches(x.e, ks[0], ks[1], s, pad)
                oh, ow = pv.shape[1:3]
                flat = [np.transpose(a, (0, 1, 2, 5, 3, 4)).reshape(b, oh, ow, f, m) for a in (pv, pe)]
                g = onehot(flat[0], flat[1], q.map(lambda a: np.transpose(a, (0, 2, 3, 1))))
                each = g.map(lambda a: np.transpose(a.reshape(b, oh, ow, f, ks[0], ks[1]), (0, 1, 2, 4, 5, 3)))
                each = R(each.v, each.e + A.t)
            return [], self.back(each.map(lambda a: spread(a, h, w_, ks, s, pad)))
        if k.startswith("Global"):
            b, f = x.shape[:2]
            g = dy.map(lambda a: a.reshape(b, f))
            if k == "GlobalAveragePooling2D":
                g = A.scale(g, 1.0 / (h * w_))
                out = g.map(lambda a: np.broadcast_to(a[:, :, None, None], x.shape))
            else:
                g = onehot(x.v.reshape(b, f, -1), x.e.reshape(b, f, -1), g)
                out = R(g.v, g.e + A.t).map(lambda a: a.reshape(x.shape))
            return [], self.back(out)
        raise ValueError(k)


# ------------------------------------------------------------------ generated networks
KINDS4 = ["Conv2D"] * 4 + ["AveragePooling2D"] * 2 + ["MaxPooling2D"] * 2 + [
    "GlobalAveragePooling2D", "GlobalMaxPooling2D", "Flatten", "Reshape", "Activation", "ReLU"]
TRAIN_ACTS = (None, "linear", "relu", "sigmoid")


def draw_layer(draw, c, shape):
    while True:
        d, out = C25.draw_layer(draw, c, shape)
        if d["l"] in ("BatchNormalization", "DepthwiseConv2D"):
            # no gradient (refused)
            from hypothesis import reject
            reject()
        if d.get("act") not in TRAIN_ACTS:
            d["act"] = "sigmoid"
        if d["l"] == "Activation" and d["act"] is None:
            d["act"] = "linear"
        return d, out


@st.composite
def case_grad(draw):
    c = {"proto": "aby3", "fmt": draw(st.sampled_from(["channels_last", "channels_first"])),
         "prec": draw(st.sampled_from(["l", "l", "l", "h"])), "debug": draw(st.booleans()),
         "multi": draw(st.integers(0, 7)) == 0, "weights": "numpy", "how": "layer"}
    n = draw(st.integers(1, 3))
    if draw(st.integers(0, 3)):
        shape = [n, draw(st.integers(1, 6)), draw(st.integers(1, 6)), draw(st.integers(1, 3))]
    else:
        shape = [n, draw(st.integers(1, 5))]
    c["x"] = draw(gen.reals_desc(list(shape), -2, 2))
    d, out = draw_layer(draw, c, shape)
    if d["l"] == "MaxPooling2D" and d["k"] == [1, 1] or d["l"] == "GlobalMaxPooling2D" and int(np.prod(shape)) == int(np.prod(out)):
        d, out = {"l": "ReLU"}, shape  # a maximum over one element has a public argmax, which has no gradient (refused)
    c["layer"], c["out"] = d, [int(v) for v in out]
    c["dy"] = draw(gen.reals_desc(c["out"], -2, 2))
    c["lazy"] = draw(st.booleans())
    c["steps"] = draw(st.integers(1, 2))
    return c


def run_grad(c):
    p, A = C25.protocol(c)
    d = c["layer"]
    shape = list(c["x"]["shape"])
    kw = C25.config_of(d, c, shape)
    if c["lazy"] and d["l"] in ("Dense", "Conv2D"):
        kw["lazy_normalization"] = True
    what = "%s%s on %s" % (d["l"], kw, shape)
    layer = getattr(KERAS, d["l"])(**kw)
    ws = C25.weights_for(d, shape, c["fmt"])
    layer.build(tf.TensorShape(shape))
    if ws:
        layer.set_weights([np.array(w) for w in ws])
    rws = C25.stored(A, layer, d, shape, ws, c, what)
    net = Net(A, d, c, kw.get("lazy_normalization", False))
    for k in range(c["steps"]):
        # the second time: the gradient belongs to the last forward pass
        xs = np.asarray(gen.real_array(c["x"])) * (1 if k == 0 else -0.5)
        ds = np.asarray(gen.real_array(c["dy"])) * (1 if k == 0 else 0.75)
        x, dy = p.define_private_variable(xs), p.define_private_variable(ds)
        rx, rdy = R(A.read(x.read_value())), R(A.read(dy.read_value()))
        net.forward(rx, rws)
        want_w, want_x = net.backward(rdy, rws)
        layer(x.read_value())
        got_w, got_x = layer.backward(dy.read_value())
        if len(got_w) != len(want_w):
            raise Violation("%s: %d weight gradients for %d weights" % (what, len(got_w), len(want_w)))
        close(A.read(got_x), want_x.v, want_x.e + 1e-9, what + ": gradient of the input")
        for i, (g, w) in enumerate(zip(got_w, want_w)):
            if [int(v) for v in g.shape] != [int(v) for v in layer.weights[i].shape]:
                raise Violation("%s: gradient of weight %d has shape %s" % (what, i, g.shape))
            close(A.read(g).reshape(w.shape), w.v, w.e + 1e-9, what + ": gradient of weight %d" % i)
    count("gradient of " + d["l"])
    return bool(np.any(np.asarray(want_x.v) != 0))


# --------------------------------------------------------------------------- losses
LOG = nn.LOG


def poly_log(A, x):
    if np.any(x.v - x.e < 0.1) or np.any(x.v + x.e > 1.4):
        raise Outside
    a = np.maximum(np.abs(x.v), 0.1)
    rnd = A.u * (4 + sum(a ** k + abs(c) * 1.6 * k * np.maximum(1, a) ** (k - 1) + 2 for k, c in LOG.items() if k))
    return A.apply(x, lambda g: sum(c * g ** k for k, c in LOG.items()), rnd)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def loss_obj(d):
    k = d["loss"]
    if k == "mse":
        return tfe.keras.losses.MeanSquaredError()
    cls = tfe.keras.losses.BinaryCrossentropy if k == "bce" else tfe.keras.losses.CategoricalCrossentropy
    return cls(from_logits=d["logits"], lazy_normalization=d["lazy"])


def loss_plain(A, d, t, q):
    """-> loss, gradient with respect to the model's output"""
    n = t.shape[0]
    one = R(np.ones(q.shape))
    if d["loss"] == "mse":
        diff = A.sub(t, q)
        loss = A.scale(A.sum(A.mul(diff, diff), 0), 1.0 / n)
        return loss, A.scale(A.scale(A.sub(q, t), 2), 1.0 / n)
    if d["logits"]:
        q = nn.activation(A, "sigmoid" if d["loss"] == "bce" else "softmax", q)
    grad = A.sub(q, t)
    if not d["lazy"]:
        grad = A.scale(grad, 1.0 / n)
    try:
        if d["loss"] == "bce":
            s = A.add(A.mul(t, poly_log(A, q)), A.mul(A.sub(one, t), poly_log(A, A.sub(one, q))))
            loss = A.scale(A.neg(A.sum(s, 0)), 1.0 / n)
        else:
            loss = A.scale(A.sum(A.neg(A.mul(t, poly_log(A, q))), None), 1.0 / n)
    except Outside:
        loss = None
    return loss, grad


@st.composite
def case_loss(draw):
    k = draw(st.sampled_from(["mse", "bce", "bce", "cce", "cce"]))
    c = {"proto": "aby3", "loss": k, "logits": draw(st.booleans()), "lazy": draw(st.booleans()),
         "prec": draw(st.sampled_from(["l", "l", "h"])), "debug": draw(st.booleans()), "multi": draw(st.integers(0, 7)) == 0}
    n = draw(st.integers(1, 7))
    shape = [n, draw(st.integers(2, 5))] if k == "cce" else draw(st.sampled_from([[n], [n, 1], [n, draw(st.integers(2, 4))]]))
    lo, hi = (-4, 4) if k == "mse" else (-2.0, 2.0) if c["logits"] else (0.11, 0.89)
    c["q"] = draw(gen.reals_desc(shape, lo, hi))
    c["soft"] = draw(st.integers(0, 3)) == 0 or k == "mse"
    c["t"] = draw(gen.reals_desc(shape, -4, 4) if k == "mse" else gen.reals_desc(shape, 0, 1))
    if k == "cce" and not c["logits"]:
        c["soft"] = c["soft"]
    return c


def labels(c, shape):
    t = np.asarray(gen.real_array(c["t"])).reshape(shape)
    if not c["soft"]:
        if c["loss"] == "cce":
            hot = np.zeros(shape)
            hot[np.arange(shape[0]), np.argmax(t, axis=1)] = 1
            return hot
        return (t > 0.5).astype(np.float64)
    return t


def run_loss(c):
    p, A = C25.protocol(c)
    shape = list(c["q"]["shape"])
    qs = np.asarray(gen.real_array(c["q"])).reshape(shape)
    ts = labels(c, shape)
    q, t = p.define_private_variable(qs).read_value(), p.define_private_variable(ts).read_value()
    rq, rt = R(A.read(q)), R(A.read(t))
    loss, grad = loss_plain(A, c, rt, rq)
    obj = loss_obj(c)
    what = "%s from_logits=%s lazy=%s %s" % (c["loss"], c["logits"], c["lazy"], shape)
    # known finding: with from_logits=False the crossentropy gradients are those with respect
    # to the logits
    close(A.read(obj.grad(t, q)), grad.v, grad.e + 1e-9, what + ": gradient")
    if loss is not None:
        close(A.read(obj(t, q)), loss.v, loss.e + 1e-9, what + ": loss")
        count("loss " + c["loss"])
        # against the definition
        n = shape[0]
        if c["loss"] == "mse":
            ref = ((rt.v - rq.v) ** 2).sum(axis=0) / n
            tol = 1e-9
        else:
            z = rq.v
            if c["logits"]:
                z = 1 / (1 + np.exp(-z)) if c["loss"] == "bce" else nn.activation(A, "softmax", rq).v
            if c["loss"] == "bce":
                ref = -(rt.v * np.log(z) + (1 - rt.v) * np.log(1 - z)).sum(axis=0) / n
            else:
                ref = -(rt.v * np.log(z)).sum() / n
            tol = 0.25 * (1 if c["loss"] == "bce" else np.abs(rt.v).sum(axis=1).max())
        close(A.read(obj(t, q)), ref, loss.e + tol, what + ": loss by definition")
    return True


# ------------------------------------------------------------------------- optimizers
def inv_sqrt(A, x):
    lo = x.v - x.e
    if np.any(lo < 2.0 ** -9) or np.any(lo < 0.5 * x.v):
        raise Outside
    f = 1 / np.sqrt(lo)
    return A.apply(x, lambda g: 1 / np.sqrt(np.maximum(g, lo / 2)), 8 * A.u + f * (8e-5 + 10 * A.u * np.maximum(1, f)))


class Opt:
    """Plaintext optimizer on R, one state per layer."""

    def __init__(self, A, d):
        self.A, self.d = A, d
        self.state = {}

    def make(self):
        d = self.d
        if d["opt"] == "sgd":
            return tfe.keras.optimizers.SGD(learning_rate=d["lr"], momentum=d["m"])
        cls = tfe.keras.optimizers.Adam if d["opt"] == "adam" else tfe.keras.optimizers.AMSgrad
        return cls(learning_rate=d["lr"], beta1=d["b1"], beta2=d["b2"])

    def step(self, key, W, G):
        A, d = self.A, self.d
        if key not in self.state:
            zero = [R(np.zeros(w.shape)) for w in W]
            self.state[key] = {"M": list(zero), "V": list(zero), "H": list(zero), "p1": R(np.ones(())), "p2": R(np.ones(()))}
        s = self.state[key]
        out = []
        if d["opt"] == "sgd":
            for i, (w, g) in enumerate(zip(W, G)):
                v = A.add(A.scale(s["M"][i], d["m"]), A.scale(g, d["lr"]))
                s["M"][i] = v
                out.append(A.sub(w, v))
            return out
        b1, b2 = d["b1"], d["b2"]
        one = R(np.ones(()))
        s["p1"], s["p2"] = A.scale(s["p1"], b1), A.scale(s["p2"], b2)
        for i, (w, g) in enumerate(zip(W, G)):
            m = s["M"][i] = A.add(A.scale(s["M"][i], b1), A.scale(g, 1 - b1))
            v = s["V"][i] = A.add(A.scale(s["V"][i], b2), A.mul(A.scale(g, 1 - b2), g))
            if d["opt"] == "adam":
                m, v = (self.div(q, A.sub(one, pw)) for q, pw in ((m, s["p1"]), (v, s["p2"])))
            else:
                h = s["H"][i]
                lo, hi = np.maximum(h.v - h.e, v.v - v.e), np.maximum(h.v + h.e, v.v + v.e)
                v = s["H"][i] = R((lo + hi) / 2, (hi - lo) / 2)
            r = inv_sqrt(A, A.add(v, R(np.full(v.shape, A.u), 0)))
            out.append(A.sub(w, A.mul(A.scale(m, d["lr"]), r)))
        return out

    def div(self, x, y):
        lo = y.v - y.e
        if np.any(lo <= 2.0 ** -8) or np.any(lo < 0.5 * y.v):
            raise Outside
        return self.A.mul(x, self.A.apply(y, lambda g: 1 / np.maximum(g, lo), 2 * self.A.u + 1e-7))


def draw_opt(draw):
    d = {"opt": draw(st.sampled_from(["sgd", "sgd", "adam", "amsgrad"])),
         "lr": draw(st.sampled_from([0.01, 0.1, 0.125, 0.5, 1.0])),
         "m": draw(st.sampled_from([0.0, 0.5, 0.9])),
         "b1": draw(st.sampled_from([0.9, 0.5, 0.75])), "b2": draw(st.sampled_from([0.9, 0.75, 0.5]))}
    return d


@st.composite
def case_opt(draw):
    c = {"proto": "aby3", "prec": draw(st.sampled_from(["l", "l", "h"])), "debug": draw(st.booleans()),
         "multi": draw(st.integers(0, 7)) == 0}
    c.update(draw_opt(draw))
    c["layers"] = [[draw(gen.shapes(1, 2)) for _ in range(draw(st.integers(0, 2)))] for _ in range(draw(st.integers(1, 3)))]
    c["s"] = draw(gen.SEED)
    c["order"] = draw(st.lists(st.integers(0, len(c["layers"]) - 1), min_size=1, max_size=7))
    c["size"] = draw(st.sampled_from([0.7, 2.0, 2.0]))
    return c


def run_opt(c):
    p, A = C25.protocol(c)
    rng = np.random.Generator(np.random.PCG64(c["s"]))
    ws = [[p.define_private_variable(rng.uniform(-2, 2, size=sh)) for sh in layer] for layer in c["layers"]]
    rw = [[R(A.read(w.read_value())) for w in layer] for layer in ws]
    ref = Opt(A, c)
    opt = ref.make()
    opt.compile(ws)
    moved = False
    for k, i in enumerate(c["order"]):
        gs = []
        for sh in c["layers"][i]:
            g = rng.uniform(0.5, 1, size=sh) * c["size"] * rng.choice([-1, 1], size=sh)
            gs.append(p.define_private_variable(g).read_value())
        rg = [R(A.read(g)) for g in gs]
        try:
            rw[i] = ref.step(i, rw[i], rg)
        except Outside:
            break
        opt.apply_gradients(ws[i], gs)
        moved = moved or bool(gs)
        for j, layer in enumerate(ws):
            for q, w in enumerate(layer):
                close(A.read(w.read_value()), rw[j][q].v, rw[j][q].e + 1e-9,
                      "%s after step %d (of layer %d): weight %d of layer %d" % (
                          {q: c[q] for q in ("opt", "lr", "m", "b1", "b2")}, k + 1, i, q, j))
    count("optimizer " + c["opt"])
    return moved


# --------------------------------------------------------------------------- training
@st.composite
def case_train(draw):
    c = {"proto": "aby3", "fmt": draw(st.sampled_from(["channels_last", "channels_first"])),
         "prec": draw(st.sampled_from(["l", "l", "h"])), "debug": draw(st.integers(0, 3)) != 0,
         "multi": draw(st.integers(0, 9)) == 0, "weights": "numpy", "how": "seq"}
    c["batch"] = draw(st.integers(1, 4))
    c["total"] = draw(st.integers(1, 9))
    c["feed"] = draw(st.sampled_from(["batch", "batch", "tensors", "tensors", "iterator"]))
    c["epochs"] = draw(st.integers(1, 3))
    c["steps"] = draw(st.sampled_from([None, None, 1, 2, 3]))
    n = c["batch"]
    img = draw(st.integers(0, 2)) == 0
    shape = [n] + ([draw(st.integers(2, 4)), draw(st.integers(2, 4)), draw(st.integers(1, 2))] if img else [draw(st.integers(1, 4))])
    if img and c["fmt"] == "channels_first":
        shape = [n, shape[3], shape[1], shape[2]]
    c["in"] = list(shape)
    c["layers"] = []
    if img:
        ks = draw(st.integers(1, 2))
        d = {"l": "Conv2D", "k": [ks, ks], "st": C25.pair(draw, 2), "pad": draw(st.sampled_from(["same", "valid"])),
             "act": draw(st.sampled_from([None, "relu", "sigmoid"])), "bias": draw(st.booleans()), "s": draw(gen.SEED), "n": draw(st.integers(1, 2))}
        c["layers"] = [d, {"l": "Flatten"}]
    for _ in range(draw(st.integers(0, 1))):
        c["layers"].append({"l": "Dense", "units": draw(st.integers(1, 3)), "act": draw(st.sampled_from([None, "sigmoid", "relu"])),
                            "bias": draw(st.booleans()), "s": draw(gen.SEED)})
    loss = draw(st.sampled_from(["mse", "mse", "bce", "cce"]))
    c.update(loss=loss, logits=True, lazy=draw(st.booleans()) and loss != "mse", soft=loss == "mse")
    c["layers"].append({"l": "Dense", "units": draw(st.integers(2, 3)) if loss == "cce" else draw(st.integers(1, 2)), "act": None,
                        "bias": draw(st.booleans()), "s": draw(gen.SEED)})
    if loss == "cce":
        c["debug"] = True  # sorting in a graph needs a TensorFlow older than the one here (refused)
    if not c["debug"] and c["feed"] != "batch":
        c["epochs"] = min(c["epochs"], 2)
    c.update(draw_opt(draw))
    c["lr"] = draw(st.sampled_from([0.05, 0.125, 0.25]))
    c["s"] = draw(gen.SEED)
    return c


def run_train(c):
    p, A = C25.protocol(c)
    rng = np.random.Generator(np.random.PCG64(c["s"]))
    n, total = c["batch"], c["total"]
    model = tfe.keras.Sequential()
    wss, shapes, sh = [], [], list(c["in"])
    for i, d in enumerate(c["layers"]):
        kw = C25.config_of(d, c, sh)
        if i == 0:
            kw["batch_input_shape"] = sh
        if c["lazy"] and d["l"] in ("Dense", "Conv2D"):
            kw["lazy_normalization"] = True
        model.add(getattr(KERAS, d["l"])(**kw))
        wss.append([w / 2 for w in C25.weights_for(d, sh, c["fmt"])])
        sh = list(C25.plain_shape(A, d, c, sh))
    model.set_weights([list(w) for w in wss])
    stored = [[R(A.read(w.read_value()).reshape(q.shape)) for w, q in zip(layer.weights, ws)]
              for layer, ws in zip(model.layers, wss)]
    start = [[R(w.v, w.e) for w in layer] for layer in stored]
    nets = [Net(A, d, c, c["lazy"]) for d in c["layers"]]
    ref = Opt(A, c)
    model.compile(ref.make(), loss_obj(c))
    xs = rng.uniform(-1, 1, size=[total] + c["in"][1:])
    out = [total, sh[-1]]
    c2 = dict(c, t={"shape": out, "k": "uniform", "s": c["s"] % 1000, "lo": -1 if c["loss"] == "mse" else 0, "hi": 1})
    ts = labels(c2, out)
    x, t = p.define_private_variable(xs).read_value(), p.define_private_variable(ts).read_value()
    rx, rt = R(A.read(x)), R(A.read(t))
    cuts = [(a, min(a + n, total)) for a in range(0, total, n)]
    if c["feed"] == "batch":
        cuts = [q for _ in range(c["epochs"]) for q in cuts][:4]
    elif c["feed"] == "tensors":
        cuts = [q for _ in range(c["epochs"]) for q in (cuts[:c["steps"]] if c["steps"] else cuts)]
    else:
        steps = c["steps"] or 2
        cuts = [cuts[i % len(cuts)] for i in range(c["epochs"] * steps)]
    if len(cuts) > 12:
        return False
    what = "training %s %s %s fed by %s batch=%d of %d epochs=%d steps=%s" % (
        [d["l"] for d in c["layers"]], c["loss"], c["opt"], c["feed"], n, total, c["epochs"], c["steps"])

    # plaintext
    losses = []

    def forward(v):
        for net, ws in zip(nets, stored):
            v = net.forward(v, ws)
        return v
    try:
        for a, b in cuts:
            part = (lambda r: r.map(lambda q: q[a:b]))
            y = forward(part(rx))
            loss, g = loss_plain(A, c, part(rt), y)
            losses.append(loss)
            for i in range(len(nets) - 1, -1, -1):
                gw, g = nets[i].backward(g, stored[i])
                if gw:
                    stored[i] = ref.step(i, stored[i], gw)
        ends = forward(rx)
    except Outside:
        return False
    if max([float(w.e.max()) for layer in stored for w in layer] + [0]) > 0.3:
        return False

    # private
    if c["feed"] == "batch":
        for (a, b), want in zip(cuts, losses):
            got = model.fit_batch(x[a:b], t[a:b])
            if want is not None:
                close(np.asarray(got), want.v, want.e + 1e-9, what + ": loss reported")
    elif c["feed"] == "tensors":
        with quiet():
            model.fit(x, t, batch_size=n, epochs=c["epochs"], steps_per_epoch=c["steps"], verbose=0)
    else:
        def forever():
            while True:
                for a in range(0, total, n):
                    yield x[a:a + n], t[a:a + n]
        with quiet():
            model.fit(forever(), epochs=c["epochs"], steps_per_epoch=steps, verbose=0)
    moved = False
    for i, (layer, ws) in enumerate(zip(model.layers, stored)):
        for j, (w, want) in enumerate(zip(layer.weights, ws)):
            close(A.read(w.read_value()).reshape(want.shape), want.v, want.e + 1e-9, what + ": weight %d of layer %d" % (j, i))
            moved = moved or bool(np.any(np.abs(want.v - start[i][j].v) > want.e + A.u))
    # the trained model predicts and is evaluated with its new weights
    if c["loss"] == "mse" or c["debug"]:
        got = model.predict(x, batch_size=n, reveal=True)
        close(np.asarray(got), ends.v, ends.e + 1e-9, what + ": prediction after training")
    if c["debug"] and out[1] >= 1 and c["loss"] != "mse":
        name = "binary_accuracy" if c["loss"] == "bce" else "categorical_accuracy"
        with quiet():
            res = model.evaluate(x, t, batch_size=n if c["epochs"] > 1 else None, metrics=[name])
        q = ends
        if name == "binary_accuracy":
            sure = np.abs(q.v - 0.5) > q.e
            right = ((q.v > 0.5) == (np.asarray(ts) > 0.5))
        else:
            srt = np.sort(q.v, axis=1)
            sure = (srt[:, -1] - srt[:, -2]) > 2 * q.e.max(axis=1)
            right = q.v.argmax(axis=1) == np.asarray(ts).argmax(axis=1)
        if np.all(sure):
            close(np.asarray(float(res[name])), np.asarray(right.mean()), 1e-6, what + ": " + name)
            count("evaluate")
    count("training fed by " + c["feed"])
    count("trained with " + c["opt"])
    return moved


FAMILIES = [
    Family("gradients", case_grad, run_grad, 260, shards=3, cost=4,
           rule="every layer with a gradient, hyper-parameters and layouts; non-trivial when the input's gradient is not all zero"),
    Family("losses", case_loss, run_loss, 120, shards=1, cost=3, rule="every loss, from logits or not, hard and soft labels"),
    Family("optimizers", case_opt, run_opt, 60, shards=1, cost=5,
           rule="histories of steps on several layers; non-trivial when some weight was updated"),
    Family("training", case_train, run_train, 90, shards=3, cost=10,
           rule="models trained by batch, from tensors over epochs, or from an iterator; non-trivial when a weight moved by more than its error"),
]
