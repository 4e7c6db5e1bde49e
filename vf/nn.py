"""Plaintext neural-network layers on values with an error bound.

R carries a float64 array and, for each element, a bound on how far the private value may
lie from it.  Each layer propagates both, so a layer or a stack is compared as tightly as
fixed-point arithmetic allows."""
import math

import numpy as np

from . import env, gen, prot as P
from .env import tfe


class R:
    def __init__(self, v, e=0.0):
        self.v = np.asarray(v, dtype=np.float64)
        self.e = np.broadcast_to(np.asarray(e, dtype=np.float64), self.v.shape)

    @property
    def shape(self):
        return self.v.shape

    def map(self, f):
        """A rearrangement."""
        return R(f(self.v), f(self.e))


class Arith:
    """What one protocol's fixed-point arithmetic guarantees."""

    def __init__(self, p, kind):
        self.p, self.kind = p, kind
        if kind == "aby3":
            self.f = P.fbits(p)
            self.u = 2.0 ** -self.f
            self.t = self.u          # rescaling
            self.prob = False
        else:
            fc = p.fixedpoint_config
            self.u = 1.0 / fc.scaling_factor
            self.t = 2 * self.u
            self.prob = fc.use_noninteractive_truncation

    def read(self, x, what=""):
        if self.kind == "aby3":
            return np.asarray(P.recon(x, what=what).astype(object) * 1.0, dtype=np.float64) * self.u
        return np.asarray(P.recon2(x, what).astype(object) * 1.0, dtype=np.float64) * self.u

    # ---------------------------------------------------------------- arithmetic on R
    def const(self, v):
        return R(v, self.u)

    def add(self, x, y):
        return R(x.v + y.v, x.e + y.e)

    def sub(self, x, y):
        return R(x.v - y.v, x.e + y.e)

    def neg(self, x):
        return R(-x.v, x.e)

    def mul(self, x, y):
        return R(x.v * y.v, np.abs(x.v) * y.e + np.abs(y.v) * x.e + x.e * y.e + self.t)

    def scale(self, x, k):
        """Product with a public number, which is encoded with one unit of error."""
        return self.mul(x, R(float(k), self.u + 1e-7 * abs(k)))

    def matmul(self, x, y):
        return R(x.v @ y.v, np.abs(x.v) @ y.e + x.e @ np.abs(y.v) + x.e @ y.e + self.t)

    def sum(self, x, axis):
        return R(x.v.sum(axis=axis), x.e.sum(axis=axis))

    def conv(self, x, w, strides, pad):
        """NCHW x HWIO"""
        px, pe = (patches(q, w.shape[0], w.shape[1], strides, pad) for q in (x.v, x.e))

        def dot(a, b):
            return np.transpose(np.tensordot(a, b, axes=([3, 4, 5], [0, 1, 2])), (0, 3, 1, 2))
        return R(dot(px, w.v), dot(np.abs(px), w.e) + dot(pe, np.abs(w.v)) + dot(pe, w.e) + self.t)

    def apply(self, x, g, slack):
        """A function evaluated anywhere within the error of x."""
        d = np.linspace(-1, 1, 17).reshape((17,) + (1,) * x.v.ndim)
        y = g(x.v + d * (x.e + self.u))
        lo, hi = y.min(axis=0), y.max(axis=0)
        return R((lo + hi) / 2, (hi - lo) / 2 + slack)


def pad_amount(size, k, s, pad):
    """-> (outputs, before, after) as TensorFlow defines SAME and VALID."""
    if pad == "VALID":
        return -(-(size - k + 1) // s), 0, 0
    out = -(-size // s)
    total = max((out - 1) * s + k - size, 0)
    return out, total // 2, total - total // 2


def patches(x, kh, kw, strides, pad, fill=0.0):
    """NCHW -> n, oh, ow, kh, kw, c"""
    n, c, h, w = x.shape
    oh, t, b = pad_amount(h, kh, strides[0], pad)
    ow, l, r = pad_amount(w, kw, strides[1], pad)
    q = np.full((n, c, h + t + b, w + l + r), fill)
    q[:, :, t:t + h, l:l + w] = x
    out = np.empty((n, oh, ow, kh, kw, c))
    for i in range(oh):
        for j in range(ow):
            a, d = i * strides[0], j * strides[1]
            out[:, i, j] = np.transpose(q[:, :, a:a + kh, d:d + kw], (0, 2, 3, 1))
    return out


def sig5(x):
    return np.select([x <= -4, x <= -1.5, x <= 1.5, x <= 4],
                     [1e-4, 0.281 + 0.066 * x, 0.5 + 0.212 * x, 0.719 + 0.066 * x], 1 - 1e-4)


POLY = {
    "sigmoid": (4.5, {0: 0.5, 1: 0.2159198015, 3: -0.0082176259, 5: 0.0001825597, 7: -0.0000018848,
                      9: 0.0000000072}),
    "tanh": (2.2, {0: 0, 1: 0.852721056, 3: -0.12494112, 5: 0.010654528, 7: -0.000423424}),
    "relu": (4.5, {0: 0.44015372000819103, 1: 0.5, 2: 0.11217537671414643, 4: -0.0013660836712429923,
                   6: 9.009136367360004e-06, 8: -2.1097433984e-08}),
}


LOG = {0: -3.35674972, 1: 12.79333646, 2: -26.18955259, 3: 30.24596692, 4: -17.30367641, 5: 3.82474222}


class Outside(Exception):
    """The value leaves the range in which the protocol defines the operation."""


def activation(A, name, x):
    if name in (None, "linear"):
        return x
    if A.kind == "pond" and name in POLY:
        lim, w = POLY[name]
        if np.any(np.abs(x.v) + x.e > lim):
            raise Outside
        a = np.maximum(np.abs(x.v), 0.1)
        rnd = A.u * (4 + sum(a ** k + abs(c) * 1.6 * k * np.maximum(1, a) ** (k - 1) + 2 for k, c in w.items() if k))
        return A.apply(x, lambda g: sum(c * g ** k for k, c in w.items()), rnd)
    if name == "relu":
        return R(np.maximum(x.v, 0), x.e + A.u)
    if name == "sigmoid":
        if A.kind == "aby3":
            return A.apply(x, sig5, 8 * A.u + 1e-7)  # coefficients are float32
        lim, w = POLY[name]
        return activation(_as(A, "pond"), name, x)
    if name == "tanh":
        return activation(_as(A, "pond"), name, x)
    if name == "softmax":
        e = np.exp(x.v - x.v.max(axis=-1, keepdims=True))
        m = x.shape[-1]
        return R(e / e.sum(axis=-1, keepdims=True),
                 x.e.max(axis=-1, keepdims=True) + 16 * A.u + 2e-5 + 24 * A.u * m)
    raise ValueError(name)


def _as(A, kind):
    import copy

    B = copy.copy(A)
    B.kind = kind
    return B
