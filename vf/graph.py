"""ONNX graphs on values with an error bound: forward and backward, as the ONNX specification says."""
import numpy as np
from onnx import helper, numpy_helper

from . import nn
from .nn import R

WEIGHT = 2e-7  # initializers are float32


class Unsupported(Exception):
    pass


def attrs_of(node):
    return {a.name: helper.get_attribute_value(a) for a in node.attribute}


def pads_of(at, size, kernel, dil=(1, 1)):
    """-> [top, left, bottom, right]"""
    auto = at.get("auto_pad", b"NOTSET")
    auto = auto.decode() if isinstance(auto, bytes) else auto
    if auto == "NOTSET":
        return list(at.get("pads", [0, 0, 0, 0]))
    if auto == "VALID":
        return [0, 0, 0, 0]
    st = at.get("strides", [1, 1])
    a, b = [], []
    for n, k, s in zip(size, kernel, st):
        out = -(-n // s)
        t = max((out - 1) * s + k - n, 0)
        lo = t // 2 if auto == "SAME_UPPER" else t - t // 2
        a.append(lo)
        b.append(t - lo)
    return a + b


def zeropad(x, p, fill=0.0):
    return np.pad(x, [(0, 0), (0, 0), (p[0], p[2]), (p[1], p[3])], constant_values=fill)


def unbroadcast(A, g, shape):
    while len(g.shape) > len(shape):
        g = A.sum(g, 0)
    for i, n in enumerate(shape):
        if n == 1 and g.shape[i] != 1:
            g = A.sum(g, i).map(lambda a: np.expand_dims(a, i))
    return g


def bilinear(A, B, x, y):
    ax, ay = np.abs(x.v), np.abs(y.v)
    return R(B(x.v, y.v), B(ax, y.e) + B(x.e, ay) + B(x.e, y.e) + A.t)


def hwio(w):
    return np.transpose(w, (2, 3, 1, 0))


def dense_kernel(w, groups):
    """OIHW kernel of a grouped convolution as one of a plain convolution."""
    if groups == 1:
        return w
    o, i, kh, kw = w.shape
    out = np.zeros((o, i * groups, kh, kw))
    per = o // groups
    for k in range(o):
        g = k // per
        out[k, g * i:(g + 1) * i] = w[k]
    return out


def spread(p, h, w, s):
    """Patch values (n, oh, ow, kh, kw, c) summed into the pixels of an n, c, h, w image (no padding)."""
    n, oh, ow, kh, kw, c = p.shape
    out = np.zeros((n, c, h, w))
    for i in range(oh):
        for j in range(ow):
            for u in range(kh):
                for v in range(kw):
                    out[:, :, i * s[0] + u, j * s[1] + v] += p[:, i, j, u, v]
    return out


class Graph:
    """Evaluates a model; keeps what the backward pass needs."""

    def __init__(self, A, model):
        self.A, self.m = A, model
        self.w = {}
        self.raw = {}
        for t in model.graph.initializer:
            a = numpy_helper.to_array(t)
            self.raw[t.name] = a
            if a.dtype.kind == "f":
                self.w[t.name] = R(a.astype(np.float64), A.u + WEIGHT * np.abs(a.astype(np.float64)))
        self.trained = set()

    # ------------------------------------------------------------------ forward
    def forward(self, inputs):
        val = dict(zip([i.name for i in self.m.graph.input], inputs))
        self.val = val
        self.saved = []
        for node in self.m.graph.node:
            ins = [val[n] if n in val else self.w[n] if n in self.w else self.raw[n] for n in node.input]
            at = attrs_of(node)
            outs = getattr(self, "f_" + node.op_type)(node, at, *ins)
            outs = outs if isinstance(outs, list) else [outs]
            for n, v in zip(node.output, outs):
                val[n] = v
        return [val[o.name] for o in self.m.graph.output]

    def f_Add(self, n, at, a, b):
        return self.A.add(a, b)

    def f_Sub(self, n, at, a, b):
        return self.A.sub(a, b)

    def f_Mul(self, n, at, a, b):
        return self.A.mul(a, b)

    def f_Neg(self, n, at, a):
        return self.A.neg(a)

    def f_MatMul(self, n, at, a, b):
        return self.A.matmul(a, b)

    def f_Gemm(self, n, at, a, b, c=None):
        alpha, beta = at.get("alpha", 1.0), at.get("beta", 1.0)
        if at.get("transA", 0):
            a = a.map(np.transpose)
        if at.get("transB", 0):
            b = b.map(np.transpose)
        y = self.A.matmul(a, R(b.v * alpha, b.e * abs(alpha) + self.A.u))
        if alpha != 1:
            y = R(y.v, y.e + self.A.t)
        if c is not None:
            y = self.A.add(y, R(c.v * beta, c.e * abs(beta) + self.A.u))
        return y

    def conv_args(self, at, x, w):
        k = w.shape[2:]
        dil = at.get("dilations", [1, 1])
        if list(dil) != [1, 1]:
            v, e = (np.zeros(w.shape[:2] + tuple((q - 1) * d + 1 for q, d in zip(k, dil))) for _ in range(2))
            v[:, :, ::dil[0], ::dil[1]] = w.v
            e[:, :, ::dil[0], ::dil[1]] = w.e
            w = R(v, e)
            k = w.shape[2:]
        p = pads_of(at, x.shape[2:], k)
        g = at.get("group", 1)
        w = w.map(lambda a: hwio(dense_kernel(a, g)))
        return x.map(lambda a: zeropad(a, p)), w, list(at.get("strides", [1, 1])), p, g

    def f_Conv(self, n, at, x, w, b=None):
        q, w, s, p, g = self.conv_args(at, x, w)
        y = self.A.conv(q, w, s, "VALID")
        if b is not None:
            y = self.A.add(y, b.map(lambda a: a.reshape(-1, 1, 1)))
        return y

    def f_BatchNormalization(self, n, at, x, gamma, beta, mean, var):
        from .props import C25

        d = {"l": "BatchNormalization", "scale": True, "center": True, "eps": at.get("epsilon", 1e-5)}
        return C25.plain(self.A, d, {"fmt": "channels_first"}, x, [gamma, beta, mean, var])

    def window(self, at, x):
        k = list(at["kernel_shape"])
        dil = list(at.get("dilations", [1, 1]))
        s = list(at.get("strides", [1, 1]))
        p = pads_of(at, x.shape[2:], [(a - 1) * d + 1 for a, d in zip(k, dil)])
        if dil != [1, 1] or at.get("ceil_mode", 0):
            raise Unsupported
        return k, s, p

    def f_AveragePool(self, n, at, x):
        k, s, p = self.window(at, x)
        A = self.A
        pv, pe = (nn.patches(zeropad(a, p), k[0], k[1], s, "VALID") for a in (x.v, x.e))
        tot = R(np.transpose(pv.sum(axis=(3, 4)), (0, 3, 1, 2)), np.transpose(pe.sum(axis=(3, 4)), (0, 3, 1, 2)))
        return self.divide(tot, self.counts(at, x.shape, k, s, p), k)

    def counts(self, at, shape, k, s, p):
        if at.get("count_include_pad", 0):
            ones = np.ones((1, 1, shape[2] + p[0] + p[2], shape[3] + p[1] + p[3]))
        else:
            ones = zeropad(np.ones((1, 1) + tuple(shape[2:])), p)
        return np.transpose(nn.patches(ones, k[0], k[1], s, "VALID").sum(axis=(3, 4)), (0, 3, 1, 2))

    def divide(self, x, cnt, k):
        """Division by the number of elements, possibly in two steps."""
        A = self.A
        full = float(k[0] * k[1])
        two = cnt != full
        ratio = full / cnt
        err = x.e / cnt + np.abs(x.v) * A.u * np.where(two, ratio, 1) + np.abs(x.v) * 1e-7 + A.t
        err = err + np.where(two, (ratio + 1) * A.t + np.abs(x.v) / full * A.u, 0)
        return R(x.v / cnt, err)

    def f_MaxPool(self, n, at, x):
        k, s, p = self.window(at, x)
        pv = nn.patches(zeropad(x.v, p, -1e9), k[0], k[1], s, "VALID")
        pe = nn.patches(zeropad(x.e, p), k[0], k[1], s, "VALID")
        return R(np.transpose(pv.max(axis=(3, 4)), (0, 3, 1, 2)), np.transpose(pe.max(axis=(3, 4)), (0, 3, 1, 2)) + self.A.u)

    def reduce(self, n, at, x, axes=None):
        ax = axes if axes is not None else at.get("axes")
        if ax is None:
            ax = range(len(x.shape))
        return tuple(sorted(int(a) % len(x.shape) for a in ax)), bool(at.get("keepdims", 1))

    def mean(self, x, ax, keep):
        cnt = float(np.prod([x.shape[a] for a in ax]))
        y = self.divide(R(x.v.sum(axis=ax, keepdims=keep), x.e.sum(axis=ax, keepdims=keep)), cnt, [cnt, 1])
        return y

    def maxi(self, x, ax, keep):
        return R(x.v.max(axis=ax, keepdims=keep), x.e.max(axis=ax, keepdims=keep) + self.A.u)

    def f_ReduceMean(self, n, at, x, axes=None):
        return self.mean(x, *self.reduce(n, at, x, axes))

    def f_ReduceMax(self, n, at, x, axes=None):
        return self.maxi(x, *self.reduce(n, at, x, axes))

    def f_GlobalAveragePool(self, n, at, x):
        return self.mean(x, tuple(range(2, len(x.shape))), True)

    def f_GlobalMaxPool(self, n, at, x):
        return self.maxi(x, tuple(range(2, len(x.shape))), True)

    def f_Relu(self, n, at, x):
        return nn.activation(self.A, "relu", x)

    def f_Sigmoid(self, n, at, x):
        return nn.activation(self.A, "sigmoid", x)

    def f_Softmax(self, n, at, x):
        ax = at.get("axis", -1)
        x = x.map(lambda a: np.moveaxis(a, ax, -1))
        return nn.activation(self.A, "softmax", x).map(lambda a: np.moveaxis(a, -1, ax))

    # movement: a function of the array
    def move(self, node, at, x, ins):
        sh = x.shape
        t = node.op_type
        if t == "Slice":
            starts, ends = ins[1], ins[2]
            axes = ins[3] if len(ins) > 3 else range(len(starts))
            steps = ins[4] if len(ins) > 4 else [1] * len(starts)
            sl = [slice(None)] * len(sh)
            for a, b, e, q in zip(axes, starts, ends, steps):
                b, e, q = int(b), int(e), int(q)
                if q < 0 and e < -sh[a]:
                    e = None
                sl[a] = slice(b, e, q)
            return lambda a: a[tuple(sl)]
        if t == "Gather":
            return lambda a: np.take(a, np.asarray(ins[1]), axis=at.get("axis", 0))
        if t == "Reshape":
            dims = [int(d) for d in ins[1]]
            if not at.get("allowzero", 0):
                dims = [sh[i] if d == 0 else d for i, d in enumerate(dims)]
            return lambda a: a.reshape(dims)
        if t == "Flatten":
            ax = at.get("axis", 1)
            ax = ax + len(sh) if ax < 0 else ax
            return lambda a: a.reshape(int(np.prod(sh[:ax])), int(np.prod(sh[ax:])))
        if t == "Transpose":
            return lambda a: np.transpose(a, at.get("perm"))
        if t == "Unsqueeze":
            return lambda a: np.expand_dims(a, tuple(int(v) for v in ins[1]))
        if t == "Squeeze":
            return lambda a: np.squeeze(a, tuple(int(v) for v in ins[1]) if len(ins) > 1 else None)
        if t == "Pad":
            r = len(sh)
            p = [int(v) for v in ins[1]]
            w = [(p[i], p[i + r]) for i in range(r)]
            mode = at.get("mode", b"constant")
            mode = mode.decode() if isinstance(mode, bytes) else mode
            if mode != "constant":
                return lambda a: np.pad(a, w, mode="reflect" if mode == "reflect" else "edge")
            cut = tuple(slice(max(-b, 0), n - max(-e, 0)) for (b, e), n in zip(w, sh))
            w = [(max(b, 0), max(e, 0)) for b, e in w]
            v = ins[2] if len(ins) > 2 else 0
            v = float(np.asarray(v.v if isinstance(v, R) else v))
            if v:
                def f(a):
                    raise Unsupported
                f.const = lambda a, fill: np.pad(a[cut], w, constant_values=fill)
                f.value = v
                return f
            return lambda a: np.pad(a[cut], w)
        raise Unsupported(t)

    def moved(self, n, at, x, *ins):
        f = self.move(n, at, x, (x,) + ins)
        if hasattr(f, "const"):
            return R(f.const(x.v, f.value), f.const(x.e, self.A.u))
        return x.map(f)

    f_Slice = f_Gather = f_Reshape = f_Flatten = f_Transpose = f_Unsqueeze = f_Squeeze = f_Pad = moved

    def f_Identity(self, n, at, x):
        return x

    def cuts(self, n, at, x, sizes=None):
        ax = at.get("axis", 0)
        if sizes is None:
            k = len(n.output)
            each = -(-x.shape[ax] // k)
            sizes = [each] * (k - 1) + [x.shape[ax] - each * (k - 1)]
        return ax, np.cumsum([int(s) for s in sizes])[:-1]

    def f_Split(self, n, at, x, sizes=None):
        ax, at_ = self.cuts(n, at, x, sizes)
        return [R(v, e) for v, e in zip(np.split(x.v, at_, axis=ax), np.split(x.e, at_, axis=ax))]

    def f_Concat(self, n, at, *xs):
        return R(np.concatenate([x.v for x in xs], axis=at["axis"]), np.concatenate([x.e for x in xs], axis=at["axis"]))

    # ----------------------------------------------------------------- backward
    def backward(self, dys, rate=None, lazy=False):
        """Gradients of the inputs; with a rate, weights take a step of gradient descent."""
        A, val = self.A, self.val
        g = {}
        new = {}

        def give(name, v):
            if name in self.w:
                if lazy:
                    v = A.scale(v, 1.0 / self.batch)
                if rate is not None:
                    step = A.scale(v, rate)
                    new[name] = A.sub(new.get(name, self.w[name]), R(step.v, step.e + A.t + A.u))
            elif name not in self.raw:
                g[name] = A.add(g[name], v) if name in g else v
        for o, d in zip(self.m.graph.output, dys):
            give(o.name, d)
        self.batch = val[self.m.graph.input[0].name].shape[0]
        for node in reversed(self.m.graph.node):
            ins = [val[n] if n in val else self.w[n] if n in self.w else self.raw[n] for n in node.input]
            at = attrs_of(node)
            d = [g[o] for o in node.output]
            for name, v in zip(node.input, self.back(node, at, ins, d, [val[o] for o in node.output])):
                if v is not None:
                    give(name, v)
        self.w.update(new)
        return [g[i.name] for i in self.m.graph.input]

    def back(self, node, at, ins, ds, outs):
        from .props import C26

        A = self.A
        t = node.op_type
        x, d, y = ins[0], ds[0], outs[0]
        if t == "Add":
            return [unbroadcast(A, d, i.shape) for i in ins]
        if t == "Sub":
            return [unbroadcast(A, d, ins[0].shape), unbroadcast(A, A.neg(d), ins[1].shape)]
        if t == "Mul":
            return [unbroadcast(A, A.mul(ins[1], d), ins[0].shape), unbroadcast(A, A.mul(ins[0], d), ins[1].shape)]
        if t == "Neg":
            return [A.neg(d)]
        if t in ("MatMul", "Gemm"):
            w = ins[1]
            tb = at.get("transB", 0)
            k = w.map(np.transpose) if tb else w
            dx = bilinear(A, lambda a, b: a @ b.T, d, k)
            dw = bilinear(A, lambda a, b: a.T @ b, x, d)
            out = [dx, dw.map(np.transpose) if tb else dw]
            if len(ins) > 2:
                out.append(A.sum(d, 0))
            return out
        if t == "Conv":
            q, w, s, p, g = self.conv_args(at, x, ins[1])
            kh, kw = w.shape[:2]
            h, wd = q.shape[2:]
            dw = bilinear(A, lambda a, b: np.einsum("nijuvc,nfij->fcuv", nn.patches(a, kh, kw, s, "VALID"), b), q, d)
            dx = bilinear(A, lambda b, c: spread(np.einsum("nfij,uvcf->nijuvc", b, c), h, wd, s), d, w)
            out = [dx.map(lambda a: a[:, :, p[0]:h - p[2], p[1]:wd - p[3]]), dw]
            if len(ins) > 2:
                out.append(A.sum(d, (0, 2, 3)))
            return out
        if t in ("AveragePool", "MaxPool"):
            k, s, p = self.window(at, x)
            h, wd = x.shape[2] + p[0] + p[2], x.shape[3] + p[1] + p[3]
            pv = nn.patches(zeropad(x.v, p, -1e9), k[0], k[1], s, "VALID")
            if t == "AveragePool":
                dd = self.divide(d, self.counts(at, x.shape, k, s, p), k)
                each = dd.map(lambda a: np.broadcast_to(np.transpose(a, (0, 2, 3, 1))[:, :, :, None, None, :], pv.shape))
            else:
                pe = nn.patches(zeropad(x.e, p), k[0], k[1], s, "VALID")
                b, oh, ow = pv.shape[:3]
                f, m = x.shape[1], k[0] * k[1]
                flat = [np.transpose(a, (0, 1, 2, 5, 3, 4)).reshape(b, oh, ow, f, m) for a in (pv, pe)]
                q = C26.onehot(flat[0], flat[1], d.map(lambda a: np.transpose(a, (0, 2, 3, 1))))
                each = q.map(lambda a: np.transpose(a.reshape(b, oh, ow, f, k[0], k[1]), (0, 1, 2, 4, 5, 3)))
                each = R(each.v, each.e + A.t)
            return [each.map(lambda a: spread(a, h, wd, s)[:, :, p[0]:h - p[2], p[1]:wd - p[3]])]
        if t in ("ReduceMean", "GlobalAveragePool", "ReduceMax", "GlobalMaxPool"):
            ax = (2, 3) if t.startswith("Global") else self.reduce(node, at, x, ins[1] if len(ins) > 1 else None)[0]
            full = [1 if i in ax else n for i, n in enumerate(x.shape)]
            d = d.map(lambda a: a.reshape(full))
            if t in ("ReduceMean", "GlobalAveragePool"):
                cnt = float(np.prod([x.shape[a] for a in ax]))
                return [self.divide(d, cnt, [cnt, 1]).map(lambda a: np.broadcast_to(a, x.shape))]
            mv = [np.moveaxis(a, ax, (-2, -1)) for a in (x.v, x.e)]
            mid = mv[0].shape
            b = mid[:-2]
            q = C26.onehot(mv[0].reshape(b + (-1,)), mv[1].reshape(b + (-1,)), d.map(lambda a: a.reshape(b)))
            return [R(q.v, q.e + A.t).map(lambda a: np.moveaxis(a.reshape(mid), (-2, -1), ax))]
        if t == "Relu":
            return [C26.deriv(A, "relu", x, y, d)]
        if t == "Sigmoid":
            return [C26.deriv(A, "sigmoid", x, y, d)]
        if t in ("Reshape", "Flatten", "Unsqueeze", "Squeeze"):
            return [d.map(lambda a: a.reshape(x.shape))]
        if t in ("Transpose", "Pad"):
            # the inverse by moving positions
            f = self.move(node, at, x, ins)
            pos = f(np.arange(1, x.v.size + 1).reshape(x.shape)).ravel()

            def inv(a):
                out = np.zeros(x.v.size + 1)
                out[pos] = a.ravel()
                return out[1:].reshape(x.shape)
            return [d.map(inv)]
        if t == "Split":
            return [R(np.concatenate([q.v for q in ds], axis=at.get("axis", 0)), np.concatenate([q.e for q in ds], axis=at.get("axis", 0)))]
        if t == "Concat":
            cut = np.cumsum([q.shape[at["axis"]] for q in ins])[:-1]
            return [R(v, e) for v, e in zip(np.split(d.v, cut, axis=at["axis"]), np.split(d.e, cut, axis=at["axis"]))]
        raise Unsupported(t)
