"""Protocol-level helpers: set-up, sharing, and reading the shares as big integers."""
import numpy as np
import tensorflow as tf

from . import env, gen
from .core import Violation, count
from .env import tfe
from tf_encrypted.protocol.aby3 import ShareType
from tf_encrypted.tensor import factories
from tf_encrypted.tensor.fixed import FixedpointConfig

ARITH, BOOL = ShareType.ARITHMETIC, ShareType.BOOLEAN


def fact(n):
    """Tensor factory of a width; width 1 is the boolean factory."""
    return factories[tf.bool] if n == 1 else factories[n]


# ----------------------------------------------------------------- backing tensors
def raw128(a):
    a = np.asarray(a, dtype=object)
    out = np.zeros(a.shape + (2,), dtype=np.int64)
    flat, src = out.reshape(-1, 2), a.reshape(-1)
    for i, v in enumerate(src):
        u = int(v) % (1 << 128)
        lo, hi = u & (2**64 - 1), u >> 64
        flat[i] = [lo - 2**64 if lo >= 2**63 else lo, hi - 2**64 if hi >= 2**63 else hi]
    return out


def unraw128(r):
    r = np.asarray(r)
    if r.ndim == 0 or r.shape[-1] != 2:
        raise Violation("malformed 128-bit tensor: raw shape %s" % (r.shape,))
    lo, hi = gen.obj(r[..., 0]), gen.obj(r[..., 1])
    return gen.wrap(np.asarray(lo % 2**64 + (hi % 2**64) * 2**64, dtype=object), 128)


def ints(t):
    """Backing tensor -> object array of its ring elements (signed; bool as 0/1)."""
    f = t.factory
    if f.nbits == 128:
        return unraw128(t.value.numpy())
    return gen.obj(t.value.numpy())


def backing(a, nbits):
    """Ring elements -> native value accepted by factories[nbits] (public API path)."""
    a = np.asarray(a, dtype=object)
    if nbits == 128:
        return a
    return a.astype({64: np.int64, 32: np.int32, 16: np.int16, 8: np.int8, 1: bool}[nbits])


# ------------------------------------------------------------------------- set-up
CUSTOM = {"l8": (64, 20, 8), "l13": (64, 14, 13), "l20": (64, 7, 20), "h24": (128, 28, 24)}
PRECS = ["l", "l", "l", "l", "h", "h"] + sorted(CUSTOM)


def precision(prec):
    """What is given to a protocol as fixedpoint_config: a name or a configuration."""
    if prec not in CUSTOM:
        return prec
    n, i, f = CUSTOM[prec]
    return FixedpointConfig(scaling_base=2, nbits=n, precision_integral=i, precision_fractional=f,
                            matmul_threshold=256, truncation_gap=0, use_noninteractive_truncation=False)


def aby3(prec="l", debug=False, multi=False, names=None):
    env.use_config(debug=debug, multi=multi, names=names)
    p = tfe.protocol.ABY3(fixedpoint_config=precision(prec))
    tfe.set_protocol(p)
    return p


def fbits(p):
    return p.fixedpoint_config.precision_fractional


def nbits_of(x):
    return x.backing_dtype.nbits or 1  # the boolean factory reports 0


# ------------------------------------------------------------- reading ABY3 shares
def wrapn(a, n):
    if n == 1:
        return np.vectorize(lambda v: int(v) & 1, otypes=[object])(a) if a.size else a
    return gen.wrap(a, n)


def recon(x, check=True, what=""):
    """Ring value of an ABY3 tensor from its shares; checks the replica invariant."""
    n = nbits_of(x)
    if not hasattr(x, "shares"):
        vs = [ints(v) for v in x.unwrapped]
        if check:
            for i in (1, 2):
                if not gen.same(vs[i], vs[0]):
                    raise Violation("%s: public value differs between server 0 and %d: %s"
                                    % (what, i, gen.first_diff(vs[i], vs[0])))
        return vs[0]
    s = [[ints(x.unwrapped[i][j]) for j in range(2)] for i in range(3)]
    if check:
        for i in range(3):
            if not gen.same(s[i][1], s[(i + 1) % 3][0]):
                raise Violation(
                    "%s: second share of server %d is not the first share of server %d: %s"
                    % (what, i, (i + 1) % 3, gen.first_diff(s[i][1], s[(i + 1) % 3][0])))
    a, b, c = s[0][0], s[0][1], s[1][1]
    if x.share_type == BOOL or n == 1:
        m = (1 << n) - 1
        if a.size == 0:
            return a
        f = np.vectorize(lambda u, v, w: (int(u) ^ int(v) ^ int(w)) & m, otypes=[object])
        return wrapn(np.asarray(f(a, b, c), dtype=object).reshape(a.shape), n)
    return np.asarray(wrapn(np.asarray(a + b + c, dtype=object), n), dtype=object).reshape(a.shape)


def reveal_all(x, what=""):
    """Values every server obtains from reveal (object ints), checked to be equal."""
    r = x.reveal() if hasattr(x, "reveal") else x
    vs = [ints(v) for v in r.unwrapped]
    for i in (1, 2):
        if not gen.same(vs[i], vs[0]):
            raise Violation("%s: reveal differs at server %d: %s"
                            % (what, i, gen.first_diff(vs[i], vs[0])))
    return vs[0]


def within(got, lo, hi, what, prob=False):
    """lo <= got <= hi elementwise (object ints), same shape."""
    got = np.asarray(got, dtype=object)
    lo, hi = np.asarray(lo, dtype=object), np.asarray(hi, dtype=object)
    count("elements", lo.size)
    if got.shape != lo.shape:
        raise Violation("%s: shape %s, expected %s" % (what, got.shape, lo.shape))
    bad = np.argwhere(~np.asarray((got >= lo) & (got <= hi), dtype=bool).reshape(got.shape))
    if len(bad):
        i = tuple(bad[0])
        raise Violation("%s: at %s got %s, expected %s..%s (%d of %d wrong)" % (
            what, i, got[i], lo[i], hi[i], len(bad), got.size), prob=prob)


def exact(got, want, what):
    count("elements", np.size(want))
    got, want = np.asarray(got, dtype=object), np.asarray(want, dtype=object)
    if not gen.same(got, want):
        raise Violation("%s: %s" % (what, gen.first_diff(got, want)))


def close(got, want, tol, what, prob=False):
    got, want = np.asarray(got, dtype=np.float64), np.asarray(want, dtype=np.float64)
    count("elements", want.size)
    if got.shape != want.shape:
        raise Violation("%s: shape %s, expected %s" % (what, got.shape, want.shape))
    err = np.abs(got - want)
    bad = np.argwhere(~(err <= tol))
    if len(bad):
        i = tuple(bad[0])
        t = np.broadcast_to(tol, err.shape)[i]
        raise Violation("%s: at %s got %.10g, expected %.10g +- %.3g (%d of %d wrong)" % (
            what, i, got[i], want[i], t, len(bad), got.size), prob=prob)


# --------------------------------------------------------------- making ABY3 values
def enc(prec_bits, v):
    """Reals -> ring elements the way the documentation describes (scale, round to 0)."""
    v = np.asarray(v, dtype=np.float64)
    f = np.vectorize(lambda t: int(t * (1 << prec_bits)), otypes=[object])
    return np.asarray(f(v), dtype=object).reshape(v.shape) if v.size else v.astype(object)


def private(p, v, scaled=True, share=ARITH, nbits=None, how="var"):
    """A private tensor from a numpy array (float when scaled, object ints otherwise)."""
    f = fact(nbits) if nbits else None
    n = nbits or p.default_nbits
    if not scaled:
        v = backing(v, n)
    if how == "var":
        return p.define_private_variable(np.asarray(v), apply_scaling=scaled, share_type=share,
                                         factory=f)
    if how == "tensor":
        return p.define_private_variable(np.asarray(v), apply_scaling=scaled, share_type=share,
                                         factory=f).read_value()
    if how == "input":
        if not scaled and n == 128:
            return private(p, v, scaled, share, nbits, "var")
        return p.define_private_input("server%d" % (np.size(v) % 3),
                                      lambda: tf.constant(v), apply_scaling=scaled,
                                      share_type=share, factory=f)
    raise ValueError(how)


def public(p, v, scaled=True, nbits=None, how="const"):
    f = fact(nbits) if nbits else None
    if not scaled:
        v = backing(v, nbits or p.default_nbits)
    if how == "const":
        return p.define_constant(np.asarray(v), apply_scaling=scaled, factory=f)
    return p.define_public_variable(np.asarray(v), apply_scaling=scaled, factory=f)


# ------------------------------------------------------------- two-party protocols
def two_party(kind="pond", cfg="fixed64", debug=False, multi=False, names=None,
              triple="online"):
    from tf_encrypted.tensor import fixed

    extra = ["server0", "server1", "server2"] + (names or [])
    env.use_config(debug=debug, multi=multi, names=extra)
    fc = cfg if cfg in ("low", "high") else getattr(fixed, cfg)
    if kind == "pond":
        kw = {}
        if triple == "queued":
            from tf_encrypted.protocol.pond import QueuedOnlineTripleSource

            kw["triple_source"] = QueuedOnlineTripleSource("server2")
        p = tfe.protocol.Pond(fixedpoint_config=fc, **kw)
    else:
        p = tfe.protocol.SecureNN(fixedpoint_config=fc)
    tfe.set_protocol(p)
    return p


def modulus(p):
    return p.tensor_factory.modulus


MODULI100 = [1201, 1433, 1217, 1237, 1321, 1103, 1129, 1367, 1093, 1039]


def ints2(t):
    """Backing tensor of the two-party protocols -> object ints, reduced to [0, modulus)."""
    f = t.factory
    m = f.modulus
    if hasattr(t, "backing"):  # residues -> one integer, by the remainder theorem
        res = [gen.obj(np.asarray(b)) for b in t.backing]
        v = np.zeros(res[0].shape, dtype=object)
        for r, mi in zip(res, MODULI100):
            k = m // mi
            v = v + np.asarray(r, dtype=object) * (k * pow(k, -1, mi))
        v = np.asarray(v, dtype=object).reshape(res[0].shape)
    else:
        v = gen.obj(np.asarray(t.value))
    return np.vectorize(lambda a: int(a) % m, otypes=[object])(v) if v.size else v


def signed(v, m):
    f = np.vectorize(lambda a: int(a) % m - (m if int(a) % m > m // 2 else 0), otypes=[object])
    v = np.asarray(v, dtype=object)
    return np.asarray(f(v), dtype=object).reshape(v.shape) if v.size else v


def recon2(x, what=""):
    """Centred ring value of a two-party tensor from its stored shares."""
    m = x.backing_dtype.modulus
    u = x.unwrapped
    kind = type(x).__name__
    if "Masked" in kind:
        return recon2(x.unmasked, what)
    a, b = ints2(u[0]), ints2(u[1])
    if "Private" in kind:
        return signed(a + b, m)
    if not gen.same(a, b):
        raise Violation("%s: the servers hold different public values: %s"
                        % (what, gen.first_diff(a, b)))
    return signed(a, m)
