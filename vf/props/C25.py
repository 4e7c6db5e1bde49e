"""Private Keras layers and sequential models vs the same layers computed in plaintext."""
import numpy as np
import tensorflow as tf
from hypothesis import strategies as st

from .. import env, gen, nn, prot as P
from ..core import Family, Violation, count
from ..env import tfe
from ..nn import R, Outside
from ..prot import close

KERAS = tfe.keras.layers
ACTS = {"aby3": [None, None, "relu", "sigmoid", "linear"], "pond": [None, None, "linear", "sigmoid", "relu", "tanh"],
        "securenn": [None, None, "relu", "linear", "sigmoid"]}


# ---------------------------------------------------------------------- generation
def pair(draw, hi, square=False):
    a = draw(st.integers(1, hi))
    return [a, a if square or draw(st.booleans()) else draw(st.integers(1, hi))]


def draw_layer(draw, c, shape):
    """-> (layer description, output shape); shape excludes nothing, [N, ...]"""
    pr, fmt = c["proto"], c["fmt"]
    if len(shape) == 4:
        kinds = ["Conv2D"] * 3 + ["DepthwiseConv2D"] * 2 + ["AveragePooling2D"] * 2 + ["BatchNormalization"] * 2 + [
            "Flatten", "Flatten", "Reshape", "GlobalAveragePooling2D", "Activation"]
        if pr == "aby3":
            kinds += ["MaxPooling2D"] * 2 + ["GlobalMaxPooling2D", "ReLU"]
        elif pr == "securenn":
            kinds += ["ReLU"]
    elif len(shape) == 2:
        kinds = ["Dense"] * 4 + ["BatchNormalization", "Activation", "Reshape", "Flatten"]
        if pr != "pond":
            kinds += ["ReLU"]
    else:
        kinds = ["Flatten", "Reshape", "Activation"]
    k = draw(st.sampled_from(kinds))
    d = {"l": k}
    s = draw(gen.SEED)
    if len(shape) == 4:
        h, w, ch = (shape[1], shape[2], shape[3]) if fmt == "channels_last" else (shape[2], shape[3], shape[1])

    def img(h2, w2, c2):
        return [shape[0], h2, w2, c2] if fmt == "channels_last" else [shape[0], c2, h2, w2]

    if k == "Dense":
        d.update(units=draw(st.integers(1, 4)), act=draw(st.sampled_from(ACTS[pr] + (["softmax"] if pr == "aby3" else []))),
                 bias=draw(st.booleans()), s=s)
        return d, [shape[0], d["units"]]
    if k in ("Conv2D", "DepthwiseConv2D"):
        ks = draw(st.integers(1, min(3, h, w)))
        d.update(k=[ks, ks], st=pair(draw, 3), pad=draw(st.sampled_from(["same", "valid", "SAME", "Valid"])),
                 act=draw(st.sampled_from(ACTS[pr])), bias=draw(st.booleans()), s=s, n=draw(st.integers(1, 3)))
        oh, ow = (nn.pad_amount(a, ks, b, d["pad"].upper())[0] for a, b in ((h, d["st"][0]), (w, d["st"][1])))
        return d, img(oh, ow, d["n"] if k == "Conv2D" else ch * d["n"])
    if k in ("AveragePooling2D", "MaxPooling2D"):
        d.update(k=[draw(st.integers(1, min(3, h))), draw(st.integers(1, min(3, w)))],
                 st=draw(st.sampled_from([None, "draw"])), pad=draw(st.sampled_from(["same", "valid"])))
        if d["st"]:
            d["st"] = pair(draw, 3)
        s2 = d["st"] or d["k"]
        oh, ow = (nn.pad_amount(a, q, b, d["pad"].upper())[0] for a, q, b in ((h, d["k"][0], s2[0]), (w, d["k"][1], s2[1])))
        return d, img(oh, ow, ch)
    if k == "BatchNormalization":
        d.update(center=draw(st.booleans()), scale=draw(st.booleans()), eps=draw(st.sampled_from([1e-3, 0.01, 0.25])), s=s)
        return d, list(shape)
    if k == "Flatten":
        return d, [shape[0], int(np.prod(shape[1:]))] if len(shape) > 1 else [shape[0], 1]
    if k == "Reshape":
        n = int(np.prod(shape[1:]))
        divs = [q for q in range(1, n + 1) if n % q == 0]
        a = draw(st.sampled_from(divs))
        t = draw(st.sampled_from([[n], [a, n // a], [a, -1], [-1], [-1, a, 1], [1, a, n // a]]))
        d["t"] = t
        full = [n // int(np.prod([q for q in t if q > 0])) if v < 0 else v for v in t]
        return d, [shape[0]] + full
    if k.startswith("Global"):
        d["keep"] = draw(st.booleans())
        return d, img(1, 1, ch) if d["keep"] else [shape[0], ch]
    if k == "Activation":
        d["act"] = draw(st.sampled_from([q for q in ACTS[pr] if q] + (["softmax"] if pr == "aby3" and len(shape) == 2 else [])))
        return d, list(shape)
    return d, list(shape)


@st.composite
def case(draw, most):
    c = {"proto": draw(st.sampled_from(["aby3", "aby3", "pond", "securenn"])), "cfg": draw(st.sampled_from(
        ["fixed64", "fixed64", "fixed64_ni", "fixed100"])), "fmt": draw(st.sampled_from(["channels_last", "channels_first"])),
        "prec": draw(st.sampled_from(["l", "l", "l", "h"])),
        "debug": draw(st.booleans()), "multi": draw(st.integers(0, 7)) == 0,
        "how": draw(st.sampled_from(["layer", "seq", "list", "predict", "config", "clone", "clone"])),
        "weights": draw(st.sampled_from(["numpy", "numpy", "var", "tensor", "init"]))}
    img = draw(st.booleans())
    n = draw(st.integers(1, 3))
    shape = [n] + ([draw(st.integers(1, 6)), draw(st.integers(1, 6)), draw(st.integers(1, 3))] if img else [draw(st.integers(1, 5))])
    if not img and draw(st.integers(0, 9)) == 0:
        shape = [n]
    c["x"] = draw(gen.reals_desc(list(shape), -2, 2))
    c["layers"] = []
    for _ in range(draw(st.integers(1, most))):
        d, shape = draw_layer(draw, c, shape)
        c["layers"].append(d)
        if d.get("act") == "softmax":
            break
    if c["how"] == "predict" and c["cfg"] == "fixed100":
        c["cfg"] = "fixed64"  # shares of fixed100 cannot enter a tf.function (refused)
    if c["how"] == "predict" and any(d.get("act") == "softmax" for d in c["layers"]):
        c["debug"] = True  # sorting in a graph needs a TensorFlow older than the one here (refused)
    if c["how"] == "clone":
        c["weights"] = "numpy"
    c["batch"] = draw(st.integers(1, 3))
    c["total"] = draw(st.integers(1, 5))
    return c


# ----------------------------------------------------------------------- execution
def weights_for(d, shape, fmt):
    """Plain weights of a layer in Keras' order and layout."""
    if "s" not in d:
        return []
    rng = np.random.Generator(np.random.PCG64(d["s"]))

    def some(sh, lo=-1.0, hi=1.0):
        a = rng.uniform(lo, hi, size=sh)
        return np.where(rng.integers(0, 6, size=sh) == 0, np.clip(np.rint(a), max(lo, -1), hi), a)
    k = d["l"]
    ch = shape[-1] if fmt == "channels_last" or len(shape) == 2 else shape[1]
    if k == "Dense":
        return [some([shape[1], d["units"]])] + ([some([d["units"]])] if d["bias"] else [])
    if k in ("Conv2D", "DepthwiseConv2D"):
        n = d["n"] if k == "Conv2D" else ch * d["n"]
        return [some(d["k"] + [ch, d["n"]])] + ([some([n])] if d["bias"] else [])
    w = ([some([ch], -2, 2)] if d["scale"] else []) + ([some([ch])] if d["center"] else [])
    return w + [some([ch]), some([ch], 0.3, 4)]


def config_of(d, c, shape):
    """Keyword arguments of the layer."""
    k = d["l"]
    kw = {}
    if k == "Dense":
        kw = dict(units=d["units"], activation=d["act"], use_bias=d["bias"])
    elif k in ("Conv2D", "DepthwiseConv2D"):
        kw = dict(kernel_size=tuple(d["k"]), strides=tuple(d["st"]), padding=d["pad"], activation=d["act"], use_bias=d["bias"],
                  data_format=c["fmt"])
        kw.update({"filters": d["n"]} if k == "Conv2D" else {"depth_multiplier": d["n"]})
    elif k in ("AveragePooling2D", "MaxPooling2D"):
        kw = dict(pool_size=tuple(d["k"]), strides=tuple(d["st"]) if d["st"] else None, padding=d["pad"], data_format=c["fmt"])
    elif k == "BatchNormalization":
        kw = dict(axis=3 if len(shape) == 4 and c["fmt"] == "channels_last" else 1, center=d["center"], scale=d["scale"], epsilon=d["eps"])
    elif k == "Flatten":
        kw = dict(data_format=c["fmt"])
    elif k == "Reshape":
        kw = dict(target_shape=tuple(d["t"]))
    elif k.startswith("Global"):
        kw = dict(data_format=c["fmt"], keepdims=d["keep"])
    elif k == "Activation":
        kw = dict(activation=d["act"])
    if c["weights"] == "init" and k in ("Dense", "Conv2D"):
        kw.update(kernel_initializer="glorot_uniform", bias_initializer="ones")
    return kw


def plain(A, d, c, x, ws):
    """The layer on R, with its weights given as R in Keras' layout."""
    k, fmt = d["l"], c["fmt"]
    last = fmt == "channels_last"

    def first(x):
        return x.map(lambda a: np.transpose(a, (0, 3, 1, 2))) if last else x

    def back(x):
        return x.map(lambda a: np.transpose(a, (0, 2, 3, 1))) if last else x

    if k == "Dense":
        y = A.matmul(x, ws[0])
        if d["bias"]:
            y = A.add(y, ws[1])
        return nn.activation(A, d["act"], y)
    if k in ("Conv2D", "DepthwiseConv2D"):
        q = first(x)
        w = ws[0]
        if k == "DepthwiseConv2D":
            kh, kw, ch, m = w.shape
            v, e = np.zeros((kh, kw, ch, ch * m)), np.zeros((kh, kw, ch, ch * m))
            for i in range(ch):
                v[:, :, i, i * m:(i + 1) * m] = w.v[:, :, i]
                e[:, :, i, i * m:(i + 1) * m] = w.e[:, :, i]
            w = R(v, e)
        y = A.conv(q, w, d["st"], d["pad"].upper())
        if d["bias"]:
            y = A.add(y, ws[1].map(lambda a: a.reshape(-1, 1, 1)))
        return nn.activation(A, d["act"], back(y))
    if k == "AveragePooling2D":
        q = first(x)
        s = d["st"] or d["k"]
        pv, pe = (nn.patches(a, d["k"][0], d["k"][1], s, d["pad"].upper()) for a in (q.v, q.e))
        n = d["k"][0] * d["k"][1]
        # known finding: the divisor is the size of the window, also where it covers padding
        tot = R(np.transpose(pv.sum(axis=(3, 4)), (0, 3, 1, 2)), np.transpose(pe.sum(axis=(3, 4)), (0, 3, 1, 2)))
        full = A.scale(tot, 1 / n)
        ones = nn.patches(np.ones_like(q.v), d["k"][0], d["k"][1], s, d["pad"].upper())
        cnt = np.transpose(ones.sum(axis=(3, 4)), (0, 3, 1, 2))
        true = A.mul(tot, R(1 / cnt, A.u))
        if np.array_equal(full.v, true.v):
            return back(full)
        lo, hi = np.minimum(full.v - full.e, true.v - true.e), np.maximum(full.v + full.e, true.v + true.e)
        return back(R((lo + hi) / 2, (hi - lo) / 2))
    if k == "MaxPooling2D":
        q = first(x)
        s = d["st"] or d["k"]
        # a window always holds a real element
        pv = nn.patches(q.v, d["k"][0], d["k"][1], s, d["pad"].upper(), fill=-1e9)
        pe = nn.patches(q.e, d["k"][0], d["k"][1], s, d["pad"].upper())
        return back(R(np.transpose(pv.max(axis=(3, 4)), (0, 3, 1, 2)), np.transpose(pe.max(axis=(3, 4)), (0, 3, 1, 2)) + A.u))
    if k == "BatchNormalization":
        ws = list(ws)
        ax = 3 if len(x.shape) == 4 and last else 1
        sh = [1] * len(x.shape)
        sh[ax] = -1
        ws = [w.map(lambda a: a.reshape(sh)) for w in ws]
        gamma = ws.pop(0) if d["scale"] else None
        beta = ws.pop(0) if d["center"] else None
        mean, var = ws
        vv = var.v + d["eps"]
        den = 1 / np.sqrt(vv)
        den = R(den, 1e-7 * den + den ** 3 * (var.e + A.u) + den ** 2 * 2 * A.u + 2 * A.u)
        y = A.sub(x, mean)
        if gamma is not None:
            y = A.mul(gamma, y)
        y = A.mul(y, den)
        return A.add(y, beta) if beta is not None else y
    if k == "Flatten":
        if len(x.shape) == 1:
            return x.map(lambda a: a.reshape(-1, 1))
        if not last and len(x.shape) > 1:
            # Keras moves the channels to the end first
            x = x.map(lambda a: np.moveaxis(a, 1, -1))
        return x.map(lambda a: a.reshape(a.shape[0], -1))
    if k == "Reshape":
        return x.map(lambda a: a.reshape([a.shape[0]] + d["t"]))
    if k.startswith("Global"):
        ax = (1, 2) if last else (2, 3)
        n = x.shape[ax[0]] * x.shape[ax[1]]
        if k == "GlobalAveragePooling2D":
            y = A.scale(A.sum(x, ax), 1 / n)
        else:
            y = R(x.v.max(axis=ax), x.e.max(axis=ax) + A.u)
        if d["keep"]:
            y = y.map(lambda a: np.expand_dims(a, ax))
        return y
    if k == "Activation":
        return nn.activation(A, d["act"], x)
    if k == "ReLU":
        return nn.activation(A, "relu", x)
    raise ValueError(k)


def protocol(c):
    if c["proto"] == "aby3":
        p = P.aby3(c["prec"], debug=c["debug"], multi=c["multi"])
        A = nn.Arith(p, "aby3")
    else:
        p = P.two_party(c["proto"], c["cfg"] if c["proto"] == "pond" else "fixed64", debug=c["debug"], multi=c["multi"])
        A = nn.Arith(p, c["proto"])
    return p, A


def private(p, c, v):
    return p.define_private_variable(v)


def give(c, p, layer, ws, call):
    """Set the weights in the way the case says."""
    if not ws or c["weights"] == "init":
        return
    bn = isinstance(layer, KERAS.BatchNormalization)
    mk = p.define_public_variable if bn else p.define_private_variable
    if c["weights"] == "numpy":
        arg = [np.array(w) for w in ws]
    else:
        arg = [mk(w) for w in ws]
        if c["weights"] == "tensor":
            arg = [a.read_value() for a in arg]
    keep = list(arg)
    call(arg)
    if len(arg) != len(keep) or any(a is not b for a, b in zip(arg, keep)):
        raise Violation("set_weights changed the list it was given: %s" % arg)


def stored(A, layer, d, x_shape, ws, c, what):
    """Weights the layer holds, in Keras' layout; compared with those it was given."""
    out = []
    for i, w in enumerate(layer.weights):
        v = A.read(w.read_value(), what)
        if d["l"] == "DepthwiseConv2D" and i == 0:
            kh, kw, ch, cm = v.shape
            m = cm // ch
            off = v.copy()
            k = np.zeros((kh, kw, ch, m))
            for j in range(ch):
                k[:, :, j] = v[:, :, j, j * m:(j + 1) * m]
                off[:, :, j, j * m:(j + 1) * m] = 0
            if np.any(off != 0):
                raise Violation(what + ": depthwise kernel mixes channels: %s" % off[off != 0][:4])
            v = k
        out.append(v.reshape(ws[i].shape))
        if c["weights"] != "init":
            slack = A.u * 1.001 + 2e-7 + (A.t if d["l"] == "DepthwiseConv2D" else 0)
            close(out[-1], ws[i], slack, what + ": weight %d after set_weights" % i, prob=A.prob)
    return [R(v) for v in out]


def keras_model(c, kws, shape):
    """The plain model, or None where Keras itself refuses it."""
    K = tf.keras.layers
    try:
        if c["batch"] == 1:
            x = inp = tf.keras.Input(batch_shape=shape)
            for d, kw in zip(c["layers"], kws):
                x = getattr(K, d["l"])(**kw)(x)
            return tf.keras.Model(inp, x)
        m = tf.keras.Sequential()
        for i, (d, kw) in enumerate(zip(c["layers"], kws)):
            m.add(getattr(K, d["l"])(**(dict(kw, batch_input_shape=shape) if i == 0 else kw)))
        return m
    except ValueError:
        return None


def run(c):
    p, A = protocol(c)
    shape = list(c["x"]["shape"])
    what = "%s %s %s weights by %s" % (c["proto"], c["how"], [d["l"] for d in c["layers"]], c["weights"])
    xs = np.asarray(gen.real_array(c["x"]))
    # plain shapes, weights and layers
    layers, wss, shapes = [], [], [shape]
    sh = list(shape)
    kws = []
    for i, d in enumerate(c["layers"]):
        wss.append(weights_for(d, sh, c["fmt"]))
        kws.append(config_of(d, c, sh))
        sh = list(plain_shape(A, d, c, sh))
        shapes.append(sh)
    if c["how"] == "clone":
        km = keras_model(c, kws, shape)
        if km is None:
            return False
        km.set_weights([np.asarray(w, dtype=np.float32) for ws in wss for w in ws])
        model = tfe.keras.models.clone_model(km)
        layers = model.layers
        if len(layers) != len(kws):
            raise Violation("%s: the clone has %d layers, the model %d" % (what, len(layers), len(kws)))
    elif c["how"] == "config":
        spec = []
        for i, (d, kw) in enumerate(zip(c["layers"], kws)):
            kw = dict(kw)
            if i == 0:
                kw["batch_input_shape"] = shape
            spec.append({"class_name": d["l"], "config": kw})
        cfg = {"name": "m", "layers": spec}
        model = tfe.keras.models.model_from_config(cfg) if c["debug"] else tfe.keras.Sequential.from_config(cfg)
        layers = model.layers
    else:
        model = tfe.keras.Sequential(name="some_model") if c["how"] not in ("layer", "list") else None
        if model is not None and model.name != "some_model":
            raise Violation("Sequential(name='some_model') is called %r" % model.name)
        for i, (d, kw) in enumerate(zip(c["layers"], kws)):
            if i == 0 and c["how"] != "layer":
                kw = dict(kw, batch_input_shape=shape)
            layer = getattr(KERAS, d["l"])(**kw)
            layers.append(layer)
            if model is not None:
                model.add(layer)
        if c["how"] == "list":
            model = tfe.keras.Sequential(layers, name="some_model")
    x = private(p, c, xs)
    val = [R(A.read(x.read_value(), what))]
    if model is None:
        for layer, sh in zip(layers, shapes):
            if len(sh) == 4 and c["total"] % 2:
                # built for images of another size
                sh = [v + (0 if i == (3 if c["fmt"] == "channels_last" else 1) else 1) for i, v in enumerate(sh)]
            layer.build(sh if c["multi"] else tf.TensorShape(sh))
        for layer, ws in zip(layers, wss):
            give(c, p, layer, ws, layer.set_weights)
    elif any(len(w) for w in wss) and c["weights"] != "init" and c["how"] != "clone":
        bn = any(d["l"] == "BatchNormalization" for d in c["layers"])
        if c["batch"] == 1 or bn and c["weights"] != "numpy":
            nested = []
            for layer, ws in zip(layers, wss):
                got = []
                give(c, p, layer, ws, got.extend)
                nested.append(got)
            if c["batch"] == 1:
                model.set_weights(nested)
            else:
                model.set_weights([w for q in nested for w in q])
        else:
            give(c, p, None, [w for ws in wss for w in ws], model.set_weights)
    rws = [stored(A, layer, d, None, ws, c, what) for layer, d, ws in zip(layers, c["layers"], wss)]
    steps = [val[0]]
    try:
        for d, ws in zip(c["layers"], rws):
            steps.append(plain(A, d, c, steps[-1], ws))
    except Outside:
        return False
    for layer, a, b, d in zip(layers, shapes, shapes[1:], c["layers"]):
        for given in ([a, tf.TensorShape(a)] if c["debug"] else [a]):
            got = layer.compute_output_shape(given)
            if [int(q) for q in got] != [int(q) for q in b]:
                raise Violation("%s: %s%s says its output shape for %s is %s, not %s" % (what, d["l"], config_of(d, c, a), a, list(got), b))
    if c["how"] == "predict":
        # any number of samples, cut into batches
        n = c["total"]
        rep = [i % shape[0] for i in range(n)]
        xx = private(p, c, xs[rep])
        want = [r.map(lambda a: a[rep]) for r in steps]
        got = model.predict(xx.read_value() if c["debug"] else xx, batch_size=c["batch"], reveal=c["fmt"] == "channels_last")
        if c["fmt"] != "channels_last":
            got = A.read(got, what)
        close(np.asarray(got, dtype=np.float64), want[-1].v, want[-1].e + 1e-9, what + " predict(%d samples, batch_size=%d)" % (n, c["batch"]),
              prob=A.prob)
        count("predict")
        return True
    if model is None:
        y = x if c["debug"] else x.read_value()
        for i, (layer, d) in enumerate(zip(layers, c["layers"])):
            y = layer(y)
            close(A.read(y, what), steps[i + 1].v, steps[i + 1].e + 1e-9, what + " after layer %d %s%s" % (i, d["l"], config_of(d, c, shapes[i])),
                  prob=A.prob)
            count("layer " + d["l"])
    else:
        y = model(x.read_value())
        close(A.read(y, what), steps[-1].v, steps[-1].e + 1e-9, what, prob=A.prob)
        y = model(x.read_value())
        close(A.read(y, what), steps[-1].v, steps[-1].e + 1e-9, what + " called again", prob=A.prob)
        for d in c["layers"]:
            count("layer " + d["l"])
    return bool(np.any(steps[-1].v != 0))


def plain_shape(A, d, c, sh):
    ws = [R(w) for w in weights_for(d, sh, c["fmt"])]
    B = nn.Arith.__new__(nn.Arith)
    B.kind, B.u, B.t = "aby3", 1e-6, 1e-6
    d2 = dict(d, act=None) if "act" in d else d
    return plain(B, d2, c, R(np.zeros(sh)), ws).shape


FAMILIES = [
    Family("layer", lambda: case(1), run, 300, shards=4, cost=4,
           rule="every layer type, hyper-parameters, layouts, weights set or initialised; non-trivial when the output is not all zero"),
    Family("stack", lambda: case(4), run, 200, shards=4, cost=8,
           rule="stacks of up to four layers, run directly, as a model, from a configuration, or by predict in batches"),
]
