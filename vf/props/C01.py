"""Sharing a value and reading it back: every source, type, precision, share type."""
import numpy as np
import tensorflow as tf
from hypothesis import strategies as st

from .. import env, gen, prot as P
from ..core import Family, Violation, count
from ..prot import ARITH, BOOL

PLAYERS = ["server0", "server1", "server2", "alice", "bob"]
SRC = ["const_np", "const_tf", "const_py", "pubvar_np", "pubvar_tf", "pubvar_pub", "privvar_np",
       "privvar_tf", "privvar_priv", "privin", "privin_list", "pubin", "pubin_list", "local_id",
       "local_deco", "local_kw", "local_method", "local_list", "to_private", "output", "bone", "zeros"]
DT = ["float64", "float32", "int32", "int64", "int16", "uint8"]


@st.composite
def case(draw):
    return {"prec": draw(st.sampled_from(P.PRECS)), "src": draw(st.sampled_from(SRC)),
            "dt": draw(st.sampled_from(DT)), "shape": draw(gen.shapes(0, 4, 4)),
            "kind": draw(st.sampled_from(["mag", "mag", "edge", "res", "small", "const"])),
            "scaled": draw(st.sampled_from([True, True, False])), "s": draw(gen.SEED),
            "share": draw(st.sampled_from([ARITH, ARITH, BOOL])),
            "player": draw(st.sampled_from(PLAYERS)),
            "nbits": draw(st.sampled_from([None, None, None, 8, 16, 32, 64, 128, 1])),
            "debug": draw(st.booleans()), "multi": draw(st.integers(0, 5)) == 0}


def reals(c, f, top, dt):
    """Values of a numpy dtype whose encoding fits |v|*2^f < 2^top."""
    rng = np.random.Generator(np.random.PCG64(c["s"]))
    n = int(np.prod(c["shape"], dtype=int))
    out = []
    lim = top - f
    for i in range(n):
        k = c["kind"]
        if k == "mag":
            v = float(rng.uniform(-1, 1)) * 2.0 ** int(rng.integers(-f, lim))
        elif k == "edge":
            m = 2.0 ** lim
            u = 2.0 ** -f
            e = [0.0, m * (1 - 2.0 ** -20), -m * (1 - 2.0 ** -20), m / 2, -m / 2, u, -u, 1.0, -1.0,
                 32768.0, -32768.0, 65535.0, 2.0**31 - 1, -2.0**31]
            v = e[int(rng.integers(len(e)))]
            if abs(v) >= m:
                v = m / 2
        elif k == "res":
            v = int(rng.integers(-2**20, 2**20)) * 2.0 ** -f
        elif k == "small":
            v = int(rng.integers(-200, 200)) / 4
        else:
            v = out[0] if out else float(rng.uniform(-1000, 1000))
        out.append(v)
    a = np.asarray(out, dtype=np.float64)
    if dt.startswith("float"):
        a = a.astype(dt)
    else:
        i = np.iinfo(dt)
        lo, hi = max(i.min, -2**min(lim, 53) + 1), min(i.max, 2**min(lim, 53) - 1)
        a = np.clip(np.rint(a), lo, hi).astype(dt)
    return a.reshape(c["shape"])


def integers(c, n):
    if n == 1:
        rng = np.random.Generator(np.random.PCG64(c["s"]))
        return gen.obj(rng.integers(0, 2, size=c["shape"]))
    k = {"mag": "uniform", "edge": "edge", "res": "pow2", "small": "small", "const": "const"}[c["kind"]]
    return gen.int_array({"shape": c["shape"], "k": k, "s": c["s"]}, n)


def readback(x, got_enc, want, f, what):
    """Revealed natives of a scaled value: within one resolution unit of the input."""
    v = np.asarray(want, dtype=np.float64)
    tol = 2.0 ** -f * (1 + 2.0 ** -20) + np.abs(v) * 2.0 ** -50
    r = np.asarray(env.native(x), dtype=np.float64)
    P.close(r, v, tol, what + " revealed")
    sc = np.asarray([int(t) for t in got_enc.reshape(-1)], dtype=np.float64).reshape(got_enc.shape)
    P.close(sc / 2.0 ** f, v, tol, what + " shares")


def local(p, src, who, x, plain, seen, **kw):
    """The ways of having a player compute something on what it may see."""
    def fn(a):
        seen(a, " seen by " + who)
        return tf.identity(a)

    if src == "local_id":
        return [p.define_local_computation(who, fn, arguments=[x], **kw)]
    if src == "local_deco":
        return [p.local_computation(who, **kw)(fn)(x)]
    if src == "local_kw":  # the player is named at the call
        return [p.local_computation(fn)(x, player_name=who)] if all(DEFAULTS[k] == v for k, v in kw.items()) else \
            [p.local_computation(None, **kw)(fn)(x, player_name=who)]
    if src == "local_method":  # the player is the one of the object
        class Owner:
            player_name = who

            def method(self, a):
                assert self is owner
                return fn(a)

        owner = Owner()
        return [p.local_computation(None, **kw)(Owner.method)(owner, x)]
    pub = p.define_constant(np.array(3.0))

    def two(a, b, c):
        seen(b, " given to " + who)
        if float(np.asarray(c)) != 3.0:
            raise Violation("a public argument of a local computation arrived as %s" % c)
        return [fn(a), tf.identity(b)]

    return list(p.define_local_computation(who, two, arguments=(x, plain, pub), **kw))


DEFAULTS = {"apply_scaling": True, "factory": None, "share_type": ARITH}


def check(c):
    names = PLAYERS
    env.use_config(debug=c["debug"], multi=c["multi"], names=names)
    p = P.tfe.protocol.ABY3(fixedpoint_config=P.precision(c["prec"]))
    P.tfe.set_protocol(p)
    f, src, sc, share, who = P.fbits(p), c["src"], c["scaled"], c["share"], c["player"]
    nb = c["nbits"]
    if sc and nb in (1, 8, 16, 32):
        nb = None
    n = nb or p.default_nbits
    fac = P.fact(nb) if nb else None
    if n == 1:
        share = BOOL  # single bits are shared by XOR only
    if sc and n == 64 and f == 32:
        nb, n, fac = None, p.default_nbits, None
    if src.startswith("local_") and n == 128 and not sc:
        nb, n, fac = 64, 64, P.fact(64)
    if sc:
        # plaintext is read back as a float: beyond 2^62 a float cannot be encoded
        v = reals(c, f, min(n, 128) - 2, c["dt"])
    else:
        iv = integers(c, n)
        if n == 128 and src in ("const_tf", "pubvar_tf", "privvar_tf", "privin", "privin_list", "pubin",
                                "pubin_list"):
            iv = gen.wrap(iv, 64)
            v = iv.astype(np.int64)
        else:
            v = P.backing(iv, n)
    what = "%s %s%s" % (src, "scaled" if sc else "ints/%d" % n, " bool-shared" if share == BOOL else "")
    T = tf.constant
    kw = {"apply_scaling": sc, "factory": fac}
    pkw = dict(kw, share_type=share)
    inner = {"n": 0}

    def seen(a, tag):
        """What a computing party sees in plaintext."""
        inner["n"] += 1
        a = np.asarray(a)
        if sc:
            w = np.asarray(v, dtype=np.float64)
            P.close(a, w, 2.0 ** -f * 1.001 + np.abs(w) * 2.0 ** -50, what + tag)
        elif n == 128:
            P.close(a, np.asarray(iv, dtype=np.float64), np.abs(np.asarray(iv, dtype=np.float64)) * 2.0**-50, what + tag)
        else:
            P.exact(gen.obj(a), iv, what + tag)

    if src == "const_np":
        xs = [p.define_constant(v, **kw)]
    elif src == "const_tf":
        xs = [p.define_constant(T(v), **kw)]
    elif src == "const_py":
        if v.size == 0:
            return False
        one = v.reshape(-1)[0]
        one = one.item() if hasattr(one, "item") else one
        if isinstance(one, bool):
            one = int(one)
        v = np.asarray(one) if n != 128 or sc else np.asarray(one, dtype=object)
        if not sc:
            iv = np.asarray(int(one), dtype=object)
        xs = [p.define_constant(one, **kw)]
    elif src == "pubvar_np":
        xs = [p.define_public_variable(v, **kw)]
    elif src == "pubvar_tf":
        xs = [p.define_public_variable(T(v), **kw)]
    elif src == "pubvar_pub":
        xs = [p.define_public_variable(p.define_constant(v, **kw), **kw)]
    elif src == "privvar_np":
        xs = [p.define_private_variable(v, **pkw)]
    elif src == "privvar_tf":
        xs = [p.define_private_variable(T(v), **pkw)]
    elif src == "privvar_priv":
        xs = [p.define_private_variable(p.define_private_variable(v, **pkw), **pkw)]
    elif src in ("privin", "privin_list"):
        if n == 128 and not sc:
            v = v.astype(np.int64)
        g = (lambda: T(v)) if src == "privin" else (lambda: [T(v), T(v)])
        xs = p.define_private_input(who, g, **pkw)
        xs = [xs] if src == "privin" else list(xs)
    elif src in ("pubin", "pubin_list"):
        g = (lambda: T(v)) if src == "pubin" else (lambda: [T(v), T(v)])
        xs = p.define_public_input(who, g, **kw)
        xs = [xs] if src == "pubin" else list(xs)
    elif src.startswith("local_"):
        x = p.define_private_variable(v, **pkw)
        xs = [x] + local(p, src, who, x, T(v), seen, **pkw)
    elif src == "output":
        x = p.define_private_variable(v, **pkw)
        pub = p.define_public_variable(v, **kw)
        p.define_output(who, [x, pub], lambda a, b: (seen(a, " output to " + who),
                                                     seen(b, " public output to " + who), None)[-1])
        if inner["n"] != 2:
            raise Violation("%s: the receiving function was not called" % what)
        xs = [x, pub]
    elif src == "zeros":
        z = [p.zeros(list(np.shape(v)), sc, share, fac), p.zeros(list(np.shape(v)), sc, P.ShareType.PUBLIC, fac)]
        v = np.zeros_like(v)
        iv = np.zeros(np.shape(v), dtype=object) + 0
        xs = z
    elif src == "to_private":
        x = p.define_public_variable(v, **kw)
        xs = [x, x.to_private(share), x]
    elif src == "bone":
        if n == 1:
            nb = None
            return False
        x = p.define_private_variable(v, **pkw)
        q = p.define_public_variable(v, **kw)
        xs = [x, p.from_bone(x.bone), p.from_bone(q.bone)]
    else:
        raise AssertionError(src)
    for x in xs:
        if tuple(x.shape) != tuple(np.shape(v)):
            raise Violation("%s: shape %s for %s" % (what, tuple(x.shape), np.shape(v)))
        if bool(x.is_scaled) != sc:
            raise Violation("%s: scale mark %s" % (what, x.is_scaled))
        if hasattr(x, "shares") and x.share_type != share:
            raise Violation("%s: share type %s" % (what, x.share_type))
        if P.nbits_of(x) != n:
            raise Violation("%s: width %d, expected %d" % (what, P.nbits_of(x), n))
        e = P.recon(x, what=what)
        P.exact(P.reveal_all(x, what), e, what + " reveal")
        if sc:
            readback(x, e, v, f, what)
        else:
            P.exact(e, iv, what + " shares")
            if n != 128:
                P.exact(gen.obj(env.native(x)), iv, what + " revealed")
    return bool(np.size(v)) and bool(np.any(np.asarray(v) != 0))


# ------------------------------------------------------------------------- two-party
CFGS = ["fixed64", "fixed64_ni", "fixed100", "fixed100_ni", "low", "high"]
SRC2 = ["const_np", "pubvar_np", "pubvar_tf", "pubvar_pub", "privvar_np", "privvar_tf", "privvar_pub",
        "privvar_priv", "privin", "privin_list", "masked_in", "pubin", "pubin_list", "local_id",
        "local_deco", "local_kw", "local_method", "local_list", "output", "mask", "bone"]


@st.composite
def case2(draw):
    return {"cfg": draw(st.sampled_from(CFGS)), "proto": draw(st.sampled_from(["pond", "pond", "securenn"])),
            "src": draw(st.sampled_from(SRC2)), "dt": draw(st.sampled_from(DT)),
            "shape": draw(gen.shapes(0, 4, 4)),
            "kind": draw(st.sampled_from(["mag", "mag", "edge", "res", "small", "const"])),
            "scaled": draw(st.sampled_from([True, True, False])), "s": draw(gen.SEED),
            "player": draw(st.sampled_from(PLAYERS)), "debug": draw(st.booleans()),
            "multi": draw(st.integers(0, 5)) == 0}


def check2(c):
    p = P.two_party(c["proto"], c["cfg"], debug=c["debug"], multi=c["multi"], names=["alice", "bob"])
    fc = p.fixedpoint_config
    S, B, src, sc, who = fc.scaling_factor, fc.bound_single_precision, c["src"], c["scaled"], c["player"]
    if sc:
        lim = B / S
        cc = dict(c)
        v = reals(cc, 13, 13 + int(np.log2(lim)), c["dt"])
        if c["kind"] == "edge" and v.dtype.kind == "f" and v.size:
            v = np.where(np.abs(v) > lim / 2, np.sign(v) * (lim - 1.0 / S), v).astype(v.dtype)
            v = np.asarray(np.clip(v, -lim, lim - 2.0 / S))
        enc = np.asarray([int(np.float64(t) * S) for t in v.reshape(-1)], dtype=object).reshape(v.shape)
    else:
        enc = integers(c, min(31, int(np.log2(B)) + 1))
        enc = np.asarray(enc, dtype=object).reshape(c["shape"])
        enc = np.asarray(np.maximum(np.minimum(enc, B - 1), -B), dtype=object).reshape(c["shape"])
        v = np.asarray(enc.astype(np.int64))
    what = "%s %s %s%s" % (c["proto"], c["cfg"], src, " scaled" if sc else "")
    T = tf.constant
    inner = {"n": 0}
    kw = {"apply_scaling": sc}

    def seen(a, tag):
        inner["n"] += 1
        w = np.asarray(v, dtype=np.float64)
        P.close(np.asarray(a), w, 1.001 / S if sc else 0.0, what + tag)

    if src == "const_np":
        xs = [p.define_constant(v, **kw)]
    elif src == "pubvar_np":
        xs = [p.define_public_variable(v, **kw)]
    elif src == "pubvar_tf":
        xs = [p.define_public_variable(T(v), **kw)]
    elif src == "pubvar_pub":
        xs = [p.define_public_variable(p.define_public_variable(v, **kw), **kw)]
    elif src == "privvar_np":
        xs = [p.define_private_variable(v, **kw)]
    elif src == "privvar_tf":
        xs = [p.define_private_variable(T(v), **kw)]
    elif src == "privvar_pub":
        xs = [p.define_private_variable(p.define_public_variable(v, **kw), **kw)]
    elif src == "privvar_priv":
        xs = [p.define_private_variable(p.define_private_variable(v, **kw), **kw)]
    elif src in ("privin", "privin_list", "masked_in"):
        g = (lambda: [T(v), T(v)]) if src == "privin_list" else (lambda: T(v))
        xs = p.define_private_input(who, g, masked=src == "masked_in", **kw)
        xs = list(xs) if src == "privin_list" else [xs]
    elif src in ("pubin", "pubin_list"):
        g = (lambda: T(v)) if src == "pubin" else (lambda: [T(v), T(v)])
        xs = p.define_public_input(who, g, **kw)
        xs = [xs] if src == "pubin" else list(xs)
    elif src.startswith("local_"):
        x = p.define_private_variable(v, **kw)
        ys = local(p, src, who, x, T(v), seen, **kw)
        for y in ys:
            # decoding and encoding again may lose one more unit
            P.within(P.recon2(y, what), enc - 1, enc + 1, what + " recomputed")
        xs = [x]
    elif src == "bone":
        if p.tensor_factory.modulus != 2**64:
            return False
        x = p.define_private_variable(v, **kw)
        xs = [p.from_bone(x.bone), p.from_bone(p.define_constant(v, **kw).bone), p.from_bone(p.mask(x).bone)]
    elif src == "output":
        x = p.define_private_variable(v, **kw)
        m = p.mask(x)
        pub = p.define_public_variable(v, **kw)
        p.define_output(who, [x, pub, m], lambda a, b, d: (
            seen(a, " output"), seen(b, " public output"), seen(d, " masked output"), None)[-1])
        if inner["n"] != 3:
            raise Violation("%s: the receiving function was not called" % what)
        xs = [x]
    elif src == "mask":
        x = p.define_private_variable(v, **kw)
        xs = [p.mask(x)]
    else:
        raise AssertionError(src)
    for x in xs:
        if tuple(x.shape) != tuple(np.shape(v)):
            raise Violation("%s: shape %s for %s" % (what, tuple(x.shape), np.shape(v)))
        if bool(x.is_scaled) != sc:
            raise Violation("%s: scale mark %s" % (what, x.is_scaled))
        e = P.recon2(x, what)
        P.within(e, enc - (1 if sc else 0), enc + (1 if sc else 0), what + " shares")
        if hasattr(x, "alpha_on_0"):
            mod = P.modulus(p)
            a, a0, a1 = P.ints2(x.a), P.ints2(x.a0), P.ints2(x.a1)
            P.exact((a0 + a1) % mod, a % mod, what + " mask shares")
            for al in (x.alpha_on_0, x.alpha_on_1):
                P.exact(P.signed(np.asarray(P.ints2(al) + a, dtype=object), mod), e, what + " masked value")
        r = x.reveal() if hasattr(x, "reveal") else x
        P.exact(P.recon2(r, what), e, what + " reveal")
        w = np.asarray(v, dtype=np.float64)
        P.close(np.asarray(env.native(x)), w, 1.001 / S if sc else 0.0, what + " revealed")
    return bool(np.size(v)) and bool(np.any(np.asarray(v) != 0))


FAMILIES = [
    Family("replicated", case, check, 3600, shards=5, cost=1.0, rule="some non-zero element"),
    Family("two_party", case2, check2, 2400, shards=3, cost=0.8, rule="some non-zero element"),
]
