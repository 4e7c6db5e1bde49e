"""Variables: a read returns the latest assignment; nothing else is disturbed.

A variable object used directly in an operation stands for its value at creation (the
library documents this); the current value is what read_value() returns.
"""
import numpy as np
import tensorflow as tf
from hypothesis import strategies as st

from .. import gen, prot as P
from ..core import Family, Violation, count
from ..env import tfe
from ..prot import ARITH, BOOL, exact
from tf_encrypted.tensor import factories, int100factory
from tf_encrypted.tensor.native import native_factory

KINDS3 = ["scaled", "scaled", "unscaled", "bool", "bit", "b8", "b32", "pub", "pub_unscaled"]
KINDS2 = ["scaled", "scaled", "unscaled", "pub", "pub_unscaled"]
OPS = ["assign", "assign", "assign_var", "update", "update", "traced", "traced", "read", "read", "init_from",
       "reassign_same", "swap"]


@st.composite
def case(draw, kinds, worlds):
    nv = draw(st.integers(1, 4))
    return {"w": draw(st.sampled_from(worlds)), "debug": draw(st.booleans()),
            "multi": draw(st.integers(0, 5)) == 0, "shape": draw(gen.shapes(0, 3, 3)),
            "vars": [draw(st.sampled_from(kinds)) for _ in range(nv)], "seed": draw(gen.SEED),
            "steps": [list(s) for s in draw(st.lists(
                st.tuples(st.sampled_from(OPS), st.integers(0, 3), st.integers(0, 3), gen.SEED),
                min_size=2, max_size=9))]}


def case3():
    return case(KINDS3, ["l", "l", "h"])


def case2():
    return case(KINDS2, [["pond", "fixed64"], ["pond", "fixed100"], ["securenn", "fixed64"],
                         ["pond", "fixed64_ni"]])


class World3:
    def __init__(self, c):
        self.p = P.aby3(c["w"], debug=c["debug"], multi=c["multi"])
        self.f = P.fbits(self.p)

    def width(self, kind):
        return {"bit": 1, "b8": 8, "b32": 32}.get(kind, self.p.default_nbits)

    def values(self, kind, shape, rng):
        n = self.width(kind)
        if kind in ("scaled", "pub"):
            v = rng.integers(-2000, 2000, size=shape) / 64.0
            return v, np.asarray(gen.obj(np.asarray(v * 64).astype(np.int64)) * (1 << self.f) // 64,
                                 dtype=object).reshape(shape)
        b = n if kind in ("bool", "b8", "b32") else (8 if n == 1 else 30)
        v = gen.int_array({"shape": list(shape), "k": "uniform", "s": int(rng.integers(0, 1 << 20))}, b)
        v = np.asarray(v % 2 if n == 1 else v, dtype=object).reshape(shape)
        return v, v

    def make(self, kind, v, var=True):
        scaled = kind in ("scaled", "pub")
        nb = self.width(kind) if kind in ("bit", "b8", "b32") else None
        if kind.startswith("pub"):
            return P.public(self.p, v, scaled, nb, how="var" if var else "const")
        share = BOOL if kind[0] == "b" else ARITH
        return P.private(self.p, v, scaled, share, nb, "var" if var else "tensor")

    def var_from(self, kind, t, name):
        scaled = kind in ("scaled", "pub")
        if kind.startswith("pub"):
            return self.p.define_public_variable(t, apply_scaling=scaled, name=name)
        return self.p.define_private_variable(t, apply_scaling=scaled, name=name, share_type=t.share_type)

    def read(self, t, what):
        return P.recon(t, what=what)

    def wrap(self, kind, v):
        return P.wrapn(np.asarray(v, dtype=object), self.width(kind))

    def combine(self, kind, a, b):
        return a ^ b if kind[0] == "b" else a + b

    def xor(self, kind):
        return kind[0] == "b"


class World2(World3):
    def __init__(self, c):
        self.p = P.two_party(c["w"][0], c["w"][1], debug=c["debug"], multi=c["multi"])
        self.S = self.p.fixedpoint_config.scaling_factor
        self.m = P.modulus(self.p)

    def values(self, kind, shape, rng):
        v = rng.integers(-2000, 2000, size=shape)
        if kind in ("scaled", "pub"):
            w = np.asarray(gen.obj(v) * self.S, dtype=object)
            if self.S % 64 == 0:
                return v / 64.0, np.asarray(w // 64, dtype=object).reshape(shape)
            return v * 1.0, w.reshape(shape)
        return v, np.asarray(gen.obj(v), dtype=object).reshape(shape)

    def make(self, kind, v, var=True):
        scaled = kind in ("scaled", "pub")
        v = np.asarray(v)
        if kind.startswith("pub"):
            f = self.p.define_public_variable if var else self.p.define_constant
            return f(v, apply_scaling=scaled)
        t = self.p.define_private_variable(v, apply_scaling=scaled)
        return t if var else t.read_value()

    def var_from(self, kind, t, name):
        scaled = kind in ("scaled", "pub")
        if kind.startswith("pub"):
            return self.p.define_public_variable(t, apply_scaling=scaled, name=name)
        return self.p.define_private_variable(t, apply_scaling=scaled, name=name)

    def read(self, t, what):
        return P.recon2(t, what)

    def wrap(self, kind, v):
        return P.signed(np.asarray(v, dtype=object), self.m)

    def xor(self, kind):
        return False


def run(c, W):
    w = W(c)
    p, shape = w.p, tuple(c["shape"])
    rng = np.random.Generator(np.random.PCG64(c["seed"]))
    var, model, first = [], [], []
    for k in c["vars"]:
        v, e = w.values(k, shape, rng)
        var.append(w.make(k, v))
        model.append(e)
        first.append(e)
    kinds = list(c["vars"])
    held = []  # (tensor, value, kind, description): values that must never change
    writes = 0

    def check_all(what):
        for i, (t, e) in enumerate(zip(var, model)):
            exact(w.read(t.read_value(), what), e, "%s: read of variable %d (%s)" % (what, i, kinds[i]))
            r = t.read_value().reveal() if hasattr(t.read_value(), "reveal") else t.read_value()
            exact(w.read(r, what), e, "%s: reveal of variable %d (%s)" % (what, i, kinds[i]))
        for t, e, k, d in held:
            exact(w.read(t, what), e, "%s: %s changed" % (what, d))

    def updater(i):
        def f(d):
            p.assign(var[i], w.combine(kinds[i], var[i].read_value(), d))
            return d
        return f

    traced = {}
    for n, (op, i, j, seed) in enumerate(c["steps"]):
        i, j = i % len(var), j % len(var)
        r = np.random.Generator(np.random.PCG64(seed))
        k = kinds[i]
        what = "step %d %s" % (n, op)
        v, e = w.values(k, shape, r)
        if op in ("assign", "reassign_same"):
            t = w.make(k, v, var=False)
            p.assign(var[i], t)
            model[i] = e
            held.append((t, e, k, "source assigned in step %d" % n))
            if op == "reassign_same":  # another value in between, then the very same tensor again
                v2, e2 = w.values(k, shape, r)
                p.assign(var[i], w.make(k, v2, var=False))
                p.assign(var[i], t)
            writes += 1
        elif op == "assign_var":
            if kinds[j] != k:
                continue
            p.assign(var[i], var[j].read_value())
            model[i] = model[j]
            writes += 1
        elif op == "swap":
            if kinds[j] != k:
                continue
            a, b = var[i].read_value(), var[j].read_value()
            p.assign(var[i], b)
            p.assign(var[j], a)
            model[i], model[j] = model[j], model[i]
            writes += 1
        elif op == "update":
            t = w.make(k, v, var=False)
            updater(i)(t)
            model[i] = w.wrap(k, model[i] ^ e if w.xor(k) else model[i] + e)
            writes += 1
        elif op == "traced":
            if "fixed100" in c["w"]:
                continue
            if i not in traced:
                traced[i] = tfe.function(updater(i))
            t = w.make(k, v, var=False)
            traced[i](t)
            model[i] = w.wrap(k, model[i] ^ e if w.xor(k) else model[i] + e)
            writes += 1
        elif op == "read":
            held.append((var[i].read_value(), model[i], k, "value read in step %d" % n))
        elif op == "init_from":
            if len(var) >= 6:
                continue
            nv = w.var_from(k, var[i].read_value(), "v%d" % n)
            var.append(nv)
            kinds.append(k)
            model.append(model[i])
            first.append(model[i])
        count("op " + op)
        check_all(what)
    for i, t in enumerate(var):  # the object itself is the value at creation
        exact(w.read(t, "object"), first[i], "value at creation of variable %d" % i)
    return writes >= 2


# --------------------------------------------------------------------- backing variables
FACT = ["8", "16", "32", "64", "128", "bool", "int100", "prime"]


@st.composite
def raw_case(draw):
    return {"f": draw(st.sampled_from(FACT)), "shape": draw(gen.shapes(0, 3, 3)), "n": draw(st.integers(1, 3)),
            "seed": draw(gen.SEED), "steps": [list(s) for s in draw(st.lists(
                st.tuples(st.sampled_from(["assign", "assign", "assign_np", "copy", "init"]), st.integers(0, 3),
                          st.integers(0, 3), gen.SEED), min_size=1, max_size=8))]}


def raw_run(c):
    name = c["f"]
    if name in ("8", "16", "32", "64", "128"):
        f, n = factories[int(name)], int(name)
    elif name == "bool":
        f, n = factories[tf.bool], 1
    else:
        f = int100factory if name == "int100" else native_factory(tf.int32, 6551)
        n = 0
    shape = tuple(c["shape"])

    def values(seed):
        v = gen.int_array({"shape": list(shape), "k": "uniform", "s": seed}, n if n > 1 else 12)
        v = np.asarray(v, dtype=object).reshape(shape)
        return np.asarray(v % 2, dtype=object) if n == 1 else v

    def make(v):
        if name == "int100":
            return f.tensor(np.asarray(v, dtype=object).astype(np.int64))
        if name == "prime":
            return f.tensor(np.asarray(np.asarray(v) % 6551).astype(np.int32))
        return f.tensor(P.backing(v, n))

    def rd(t):
        if name == "int100":
            return P.signed(P.ints2(t), t.factory.modulus)
        return P.ints(t)

    def exp(v):
        return np.asarray(np.asarray(v) % 6551, dtype=object) if name == "prime" else v

    vs, model, held = [], [], []
    for k in range(c["n"]):
        v = values(c["seed"] + k)
        vs.append(f.variable(make(v)))
        model.append(exp(v))
    for q, (op, i, j, seed) in enumerate(c["steps"]):
        i, j = i % len(vs), j % len(vs)
        v = values(seed)
        if op == "assign":
            t = make(v)
            vs[i].assign(t)
            model[i] = exp(v)
            held.append((t, exp(v)))
        elif op == "assign_np":
            if name == "128":
                vs[i].assign(P.raw128(v))
            elif name == "int100":
                continue
            elif name == "prime":
                vs[i].assign(np.asarray(exp(v)).astype(np.int32))
            else:
                vs[i].assign(np.asarray(P.backing(v, n)))
            model[i] = exp(v)
        elif op == "copy":
            r = vs[j].read_value()
            vs[i].assign(r)
            model[i] = model[j]
            held.append((r, model[j]))
        elif op == "init" and len(vs) < 6:
            vs.append(f.variable(vs[i].read_value()))
            model.append(model[i])
        for k, (a, e) in enumerate(zip(vs, model)):
            exact(rd(a.read_value()), e, "%s step %d %s: variable %d" % (name, q, op, k))
        for t, e in held:
            exact(rd(t), e, "%s step %d %s: an earlier value changed" % (name, q, op))
    return True


FAMILIES = [
    Family("replicated", case3, lambda c: run(c, World3), 700, shards=4, cost=2.0,
           rule="at least two writes to variables"),
    Family("two_party", case2, lambda c: run(c, World2), 500, shards=3, cost=2.0,
           rule="at least two writes to variables"),
    Family("backing", raw_case, raw_run, 500, shards=1, cost=0.5, rule="every history"),
]
