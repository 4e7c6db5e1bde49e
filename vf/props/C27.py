"""Converted ONNX graphs and Keras models vs the plaintext graphs."""
import os
import tempfile

import numpy as np
import onnx
import tensorflow as tf
from hypothesis import strategies as st
from onnx import TensorProto, helper, numpy_helper

from .. import env, gen, nn, prot as P
from ..core import Family, HarnessError, Violation, count
from ..env import tfe
from ..graph import Graph, Unsupported
from ..nn import R
from ..prot import close

BODY4 = ["Conv"] * 4 + ["Depthwise"] * 2 + ["AveragePool"] * 2 + ["MaxPool"] * 2 + [
    "BatchNormalization", "GlobalAveragePool", "GlobalMaxPool", "ReduceMean", "ReduceMax", "Flatten", "Pad"]
BODY2 = ["MatMul"] * 2 + ["Gemm"] * 3 + ["Softmax"]
ANY = ["Relu", "Sigmoid", "Add", "Sub", "Mul", "Neg", "AddConst", "Slice", "Gather", "Split", "Concat", "Reshape", "Transpose",
       "Unsqueeze", "Squeeze"]
TAIL = ["Transpose", "Concat", "Slice", "Gather", "Unsqueeze", "Squeeze", "Reshape", "Pad", "Split", "Flatten"]
OPS = sorted(set(BODY4 + BODY2 + ANY))
NOGRAD = {"Depthwise", "BatchNormalization", "Softmax", "Slice", "Gather"}
LIMIT = 220  # elements of a value


class Builder:
    """Turns numbers into a well-formed graph."""

    def __init__(self, c, shapes):
        self.c = c
        self.rng = np.random.Generator(np.random.PCG64(c["seed"]))
        self.nodes, self.inits = [], []
        self.shape = {}
        self.inputs = []
        self.exotic = False
        self.kinds = []
        for i, s in enumerate(shapes):
            n = "in%d" % i
            self.inputs.append(n)
            self.shape[n] = list(s)
        self.used = set()
        self.trained = 0

    # numbers
    def n(self, k):
        v = self.ints.pop() if self.ints else 0
        return v % k

    def coin(self, k=2):
        return self.n(k) == 1

    def strange(self, k=4):
        """An attribute outside what must be supported."""
        if self.c["exotic"] and self.n(k) == 1:
            self.exotic = True
            return True
        return False

    def const(self, a, kind="w"):
        name = "%s%d" % (kind, len(self.inits))
        a = np.asarray(a)
        if a.dtype.kind == "f":
            a = a.astype(np.float32)
        if self.c["rawdata"] or a.dtype.kind != "f":
            t = numpy_helper.from_array(a, name)
        else:
            t = helper.make_tensor(name, TensorProto.FLOAT, a.shape, [float(v) for v in a.ravel()])
        self.inits.append(t)
        return name

    def weight(self, shape, lo=-1.0, hi=1.0):
        a = self.rng.uniform(lo, hi, size=shape)
        return self.const(np.where(self.rng.integers(0, 6, size=shape) == 0, np.clip(np.rint(a), max(lo, -1), hi), a))

    def ints_const(self, v):
        return self.const(np.asarray(v, dtype=np.int64), "i")

    def emit(self, op, ins, shapes, **at):
        self.used.update(ins)
        k = len(self.nodes)
        outs = ["v%d_%d" % (k, i) for i in range(len(shapes))]
        name = {"none": "", "plain": "n%d" % k, "slash": "/m/n%d/%s" % (k, op)}[self.c["names"]]
        node = helper.make_node(op, ins, outs, name=name, **at)
        if self.c["shuffle"] and len(node.attribute) > 1:
            order = self.rng.permutation(len(node.attribute))
            at2 = [onnx.AttributeProto.FromString(node.attribute[i].SerializeToString()) for i in order]
            del node.attribute[:]
            node.attribute.extend(at2)
        self.nodes.append(node)
        for o, s in zip(outs, shapes):
            self.shape[o] = [int(v) for v in s]
        self.kinds.append(op)
        return outs

    def default(self, at, name, value, d):
        """Attributes that have their default value may be left out."""
        if list(np.ravel(value)) != list(np.ravel(d)) or self.coin():
            at[name] = value

    # ops: each returns False where it does not apply
    def op(self, kind, ints, tail=False):
        self.ints = list(ints)[::-1]
        names = list(self.shape)
        # mostly the newest value
        x = names[-1] if self.n(3) else names[self.n(len(names))]
        s = self.shape[x]
        r = len(s)
        if kind in ("Conv", "Depthwise", "AveragePool", "MaxPool", "GlobalAveragePool", "GlobalMaxPool", "ReduceMean",
                    "ReduceMax") and r != 4:
            return False
        if kind in ("MatMul", "Gemm", "Softmax") and r != 2:
            return False
        return getattr(self, "o_" + kind)(x, s, tail)

    def out_size(self, n, k, st_, a, b):
        return (n + a + b - k) // st_ + 1

    def pads(self, at, s, k, st_, kind):
        """Draws explicit pads or auto_pad; -> the pads"""
        how = self.n(4)
        same = []
        for i in range(2):
            t = nn.pad_amount(s[2 + i], k[i], st_[i], "SAME")
            same.append((t[1], t[2]))
        up = [same[0][0], same[1][0], same[0][1], same[1][1]]
        if how == 0:
            self.default(at, "pads", [0, 0, 0, 0], [0, 0, 0, 0])
            return [0, 0, 0, 0]
        if how == 1 or kind == "MaxPool" and not self.c["exotic"]:
            if self.coin():
                at["auto_pad"] = "SAME_UPPER"
            else:
                at["pads"] = up
            return up
        if how == 2:
            if self.coin():
                at["auto_pad"] = "VALID"
                return [0, 0, 0, 0]
            at["auto_pad"] = "SAME_LOWER"
            if kind == "MaxPool":
                self.exotic = True
            return [same[0][1], same[1][1], same[0][0], same[1][0]]
        if kind == "MaxPool":
            self.exotic = True
        p = [self.n(3) for _ in range(4)]
        if kind != "Conv":
            p = [min(a, k[i % 2] - 1) for i, a in enumerate(p)]
        at["pads"] = p
        return p

    def o_Conv(self, x, s, tail, depth=False):
        k = 1 + self.n(3)
        ks = [k, k]
        if self.strange(6):
            ks = [k, 1 + self.n(3)]
        at = {}
        st_ = [1 + self.n(2), 1 + self.n(2)]
        if self.c["exotic"] and not depth and s[1] % 2 == 0 and self.strange(5):
            g = 2
        else:
            g = s[1] if depth else 1
        dil = [1, 1]
        if self.strange(5):
            dil = [2, 2]
            ke = [(q - 1) * 2 + 1 for q in ks]
        else:
            ke = ks
        p = [0] * 4 if dil != [1, 1] else self.pads(at, s, ks, st_, "Conv")
        h, w = s[2] + p[0] + p[2], s[3] + p[1] + p[3]
        if h < ke[0] or w < ke[1]:
            return False
        f = g * (1 + self.n(3))
        if self.coin(3):
            at["kernel_shape"] = ks
        self.default(at, "strides", st_, [1, 1])
        self.default(at, "group", g, 1)
        self.default(at, "dilations", dil, [1, 1])
        o = [s[0], f, (h - ke[0]) // st_[0] + 1, (w - ke[1]) // st_[1] + 1]
        if np.prod(o) > LIMIT:
            return False
        ins = [x, self.weight([f, s[1] // g] + ks)]
        if self.coin():
            ins.append(self.weight([f]))
        self.trained += 1
        self.emit("Conv", ins, [o], **at)
        return True

    def o_Depthwise(self, x, s, tail):
        return self.o_Conv(x, s, tail, True)

    def pool(self, kind, x, s):
        k = [1 + self.n(3), 1 + self.n(3)]
        if k == [1, 1] and self.c["grad"]:
            return False
        at = {"kernel_shape": k}
        st_ = [1 + self.n(2), 1 + self.n(2)]
        p = self.pads(at, s, k, st_, kind)
        h, w = s[2] + p[0] + p[2], s[3] + p[1] + p[3]
        if h < k[0] or w < k[1]:
            return False
        self.default(at, "strides", st_, [1, 1])
        if kind == "AveragePool":
            self.default(at, "count_include_pad", int(self.coin(3)), 0)
        self.default(at, "ceil_mode", 0, 0)
        if self.strange(6):
            if (h - k[0]) % st_[0] == 0 and (w - k[1]) % st_[1] == 0:
                at["ceil_mode"] = 1
        o = [s[0], s[1], (h - k[0]) // st_[0] + 1, (w - k[1]) // st_[1] + 1]
        if kind == "AveragePool" and not at.get("count_include_pad", 0):
            # every window needs an element
            g = Graph(None, helper.make_model(helper.make_graph([], "g", [], [])))
            if np.any(g.counts(at, s, k, st_, p) == 0):
                return False
        if np.prod(o) > LIMIT:
            return False
        self.emit(kind, [x], [o], **at)
        return True

    def o_AveragePool(self, x, s, tail):
        return self.pool("AveragePool", x, s)

    def o_MaxPool(self, x, s, tail):
        return self.pool("MaxPool", x, s)

    def glob(self, kind, x, s):
        if "Max" in kind and self.c["grad"] and s[2] * s[3] == 1:
            return False
        at, ins = {}, [x]
        keep = 1
        ax = [2, 3]
        if kind.startswith("Reduce"):
            ax = [1, 2] if self.coin() else [2, 3]
            if self.strange():
                ax = [[1], [3], [1, 3], [1, 2, 3], [2]][self.n(5)]
            if "Max" in kind and self.c["grad"] and int(np.prod([s[a] for a in ax])) == 1:
                return False
            given = [a - 4 if self.coin(3) else a for a in ax]
            if self.coin(3):
                given = given[::-1]
            if self.c["opset"] >= 18:
                ins.append(self.ints_const(given))
            else:
                at["axes"] = given
            keep = int(self.coin())
            self.default(at, "keepdims", keep, 1)
        o = [1 if i in ax else v for i, v in enumerate(s)] if keep else [v for i, v in enumerate(s) if i not in ax]
        self.emit(kind, ins, [o], **at)
        return True

    def o_GlobalAveragePool(self, x, s, tail):
        return self.glob("GlobalAveragePool", x, s)

    def o_GlobalMaxPool(self, x, s, tail):
        return self.glob("GlobalMaxPool", x, s)

    def o_ReduceMean(self, x, s, tail):
        return self.glob("ReduceMean", x, s)

    def o_ReduceMax(self, x, s, tail):
        return self.glob("ReduceMax", x, s)

    def o_BatchNormalization(self, x, s, tail):
        if len(s) not in (2, 4):
            return False
        c = s[1]
        at = {}
        self.default(at, "epsilon", [1e-5, 1e-3, 0.25][self.n(3)], 1e-5)
        self.default(at, "momentum", 0.9, 0.9)
        self.emit("BatchNormalization", [x, self.weight([c], -2, 2), self.weight([c]), self.weight([c]), self.weight([c], 0.3, 4)],
                  [s], **at)
        return True

    def o_MatMul(self, x, s, tail):
        u = 1 + self.n(4)
        self.trained += 1
        self.emit("MatMul", [x, self.weight([s[1], u])], [[s[0], u]])
        return True

    def o_Gemm(self, x, s, tail):
        u = 1 + self.n(4)
        tb = int(self.coin())
        at = {}
        if not self.c["grad"]:
            self.default(at, "alpha", [1.0, 0.5, -2.0][self.n(3)], 1.0)
            self.default(at, "beta", [1.0, 0.5, 3.0][self.n(3)], 1.0)
        self.default(at, "transA", 0, 0)
        self.default(at, "transB", tb, 0)
        ins = [x, self.weight([u, s[1]] if tb else [s[1], u])]
        if self.n(3):
            ins.append(self.weight([u]))
        self.trained += 1
        self.emit("Gemm", ins, [[s[0], u]], **at)
        return True

    def o_Softmax(self, x, s, tail):
        at = {}
        if self.strange():
            at["axis"] = 0
        else:
            self.default(at, "axis", -1 if self.coin() else len(s) - 1, -1)
        self.emit("Softmax", [x], [s], **at)
        return True

    def unary(self, op, x, s):
        self.emit(op, [x], [s])
        return True

    def o_Relu(self, x, s, tail):
        return self.unary("Relu", x, s)

    def o_Sigmoid(self, x, s, tail):
        return self.unary("Sigmoid", x, s)

    def o_Neg(self, x, s, tail):
        return self.unary("Neg", x, s)

    def binary(self, op, x, s):
        fits = [y for y, t in self.shape.items() if len(t) == len(s) and all(a == b or 1 in (a, b) for a, b in zip(s, t))]
        y = fits[self.n(len(fits))]
        o = [max(a, b) for a, b in zip(s, self.shape[y])]
        if o[0] != s[0] or self.shape[y][0] != s[0]:
            return False
        ins = [x, y] if self.coin() else [y, x]
        self.emit(op, ins, [o])
        return True

    def o_Add(self, x, s, tail):
        return self.binary("Add", x, s)

    def o_Sub(self, x, s, tail):
        return self.binary("Sub", x, s)

    def o_Mul(self, x, s, tail):
        if self.c["mults"] <= 0:
            return False
        self.c["mults"] -= 1
        return self.binary("Mul", x, s)

    def o_AddConst(self, x, s, tail):
        if len(s) < 2:
            return False
        k = self.n(3)
        sh = [s[-1:], s[1:], [s[1]] + [1] * (len(s) - 2)][k]
        ins = [x, self.weight(sh)]
        if self.strange():
            ins = ins[::-1]
        self.trained += 1
        self.emit("Add", ins, [s])
        return True

    # movement; the batch stays in front unless this is the tail
    def axis(self, r, tail, positive=False):
        lo = 0 if tail else 1
        if r <= lo:
            return None
        a = lo + self.n(r - lo)
        return a

    def sign(self, a, r):
        return a - r if self.coin(3) else a

    def o_Slice(self, x, s, tail):
        a = self.axis(len(s), tail)
        if a is None:
            return False
        axes = [a]
        if len(s) > a + 1 and self.coin():
            axes.append(a + 1)
        b, e, q = [], [], []
        o = list(s)
        for ax in axes:
            n = s[ax]
            i = self.n(n)
            j = i + 1 + self.n(n - i)
            step = 1 + (self.n(3) == 2)
            if self.strange(5):
                i, j, step = n - 1, -n - 1, -1
                o[ax] = n
                b.append(i), e.append(j), q.append(step)
                continue
            o[ax] = len(range(i, j, step))
            b.append(i - n if i and self.coin(3) else i)
            e.append([j, j - n if j < n else 2 ** 31 - 1 if self.coin() else n + 3, j][self.n(3)])
            q.append(step)
        if any(v == 0 for v in o):
            return False
        if axes == list(range(len(s))) and set(q) == {1} and self.coin():
            ins = [x, self.ints_const(b), self.ints_const(e)]
        else:
            ins = [x, self.ints_const(b), self.ints_const(e), self.ints_const([self.sign(v, len(s)) for v in axes])]
            if set(q) != {1} or self.coin():
                ins.append(self.ints_const(q))
        self.emit("Slice", ins, [o])
        return True

    def o_Gather(self, x, s, tail):
        a = self.axis(len(s), tail)
        if a is None:
            return False
        m = 1 + self.n(3)
        idx = [self.n(s[a]) for _ in range(m)]
        if self.strange(3) or a > 0 and self.coin(3):
            idx = [i - s[a] if self.coin() else i for i in idx]
        scalar = self.coin(4) and len(s) > 2 and a > 0
        idx = idx[0] if scalar else idx
        at = {}
        self.default(at, "axis", self.sign(a, len(s)), 0)
        o = list(s)
        o[a:a + 1] = list(np.shape(idx))
        self.emit("Gather", [x, self.ints_const(idx)], [o], **at)
        return True

    def o_Split(self, x, s, tail):
        a = self.axis(len(s), tail)
        if a is None:
            return False
        n = s[a]
        if self.coin():
            i = 1 + self.n(n)
            sizes = [i, n - i] if i < n else [n]
            ins = [x, self.ints_const(sizes)]
        else:
            k = [q for q in range(1, 4) if n % q == 0][self.n(len([q for q in range(1, 4) if n % q == 0]))]
            sizes = [n // k] * k
            if n > 2 and self.strange(3):
                k = 2
                each = -(-n // k)
                sizes = [each, n - each]
                if self.c["opset"] < 18:
                    return False
            ins = [x]
        at = {}
        self.default(at, "axis", self.sign(a, len(s)), 0)
        if len(ins) == 1 and self.c["opset"] >= 18:
            at["num_outputs"] = len(sizes)
        shapes = []
        for q in sizes:
            o = list(s)
            o[a] = q
            shapes.append(o)
        self.emit("Split", ins, shapes, **at)
        return True

    def o_Concat(self, x, s, tail):
        a = self.axis(len(s), tail)
        if a is None:
            return False
        fits = [y for y, t in self.shape.items() if len(t) == len(s) and t[:a] + t[a + 1:] == s[:a] + s[a + 1:]]
        ins = [fits[self.n(len(fits))] for _ in range(1 + self.n(2))]
        ins.insert(self.n(len(ins) + 1), x)
        o = list(s)
        o[a] = sum(self.shape[y][a] for y in ins)
        if np.prod(o) > LIMIT:
            return False
        self.emit("Concat", ins, [o], axis=self.sign(a, len(s)))
        return True

    def o_Reshape(self, x, s, tail):
        n = int(np.prod(s[1:]))
        divs = [q for q in range(1, n + 1) if n % q == 0]
        a = divs[self.n(len(divs))]
        t = [[n], [a, n // a], [a, 1, n // a], [1, a, n // a], [n // a, 1, a]][self.n(5)]
        o = [s[0]] + t
        given = list(o)
        how = self.n(4)
        if how == 0:
            given[0] = -1
        elif how == 1:
            given[0] = 0
        elif how == 2 and not self.c["rebatch"]:
            pass
        else:
            given[0] = 0 if self.coin() else -1
            if given[0] == 0:
                given[1 + self.n(len(t))] = -1
        if tail and self.coin():
            o = [s[0] * t[0]] + t[1:]
            given = [-1] + t[1:]
        self.emit("Reshape", [x, self.ints_const(given)], [o])
        return True

    def o_Flatten(self, x, s, tail):
        at = {}
        if self.strange(3) and len(s) > 2:
            at["axis"] = 2
            o = [int(np.prod(s[:2])), int(np.prod(s[2:]))]
        else:
            if len(s) < 2:
                return False
            self.default(at, "axis", self.sign(1, len(s)), 1)
            o = [s[0], int(np.prod(s[1:]))]
        self.emit("Flatten", [x], [o], **at)
        return True

    def o_Transpose(self, x, s, tail):
        if len(s) < 2:
            return False
        perm = [int(v) for v in self.rng.permutation(len(s))] if tail else [0] + [1 + int(v) for v in self.rng.permutation(len(s) - 1)]
        at = {}
        self.default(at, "perm", perm, range(len(s))[::-1])
        self.emit("Transpose", [x], [[s[p] for p in perm]], **at)
        return True

    def o_Unsqueeze(self, x, s, tail):
        if len(s) > 3:
            return False
        lo = 0 if tail else 1
        a = lo + self.n(len(s) + 1 - lo)
        o = list(s)
        o.insert(a, 1)
        axes = [self.sign(a, len(s) + 1)]
        if len(s) < 3 and self.strange():
            axes = [len(s), len(s) + 1]
            o = list(s) + [1, 1]
        self.emit("Unsqueeze", [x, self.ints_const(axes)], [o])
        return True

    def o_Squeeze(self, x, s, tail):
        ones = [i for i, n in enumerate(s) if n == 1 and (i > 0 or tail)]
        if not ones or len(s) - len(ones) < 1:
            return False
        if tail and self.coin() or not tail and s[0] != 1 and not self.c["rebatch"] and self.coin():
            axes = [i for i, n in enumerate(s) if n == 1]
            ins = [x]
        else:
            axes = ones if self.coin() else ones[:1]
            ins = [x, self.ints_const([self.sign(a, len(s)) for a in axes])]
        o = [n for i, n in enumerate(s) if i not in axes]
        if not o:
            return False
        self.emit("Squeeze", ins, [o])
        return True

    def o_Pad(self, x, s, tail):
        lo = 0 if tail else 1
        b = [0] * lo + [self.n(3) for _ in s[lo:]]
        e = [0] * lo + [self.n(2) for _ in s[lo:]]
        at = {}
        self.default(at, "mode", "constant", "constant")
        ins = [x, None]
        if self.strange(3):
            at["mode"] = "edge"
        elif self.strange(3):
            b = [0] * len(s)
            b[-1] = -1
            e = [0] * len(s)
            if s[-1] < 2:
                return False
        ins[1] = self.ints_const(b + e)
        if at.get("mode", "constant") == "constant":
            if self.strange(3):
                ins.append(self.const(np.float32(1.5)))
            elif self.coin():
                ins.append(self.const(np.float32(0)))
        o = [p + n + q for p, n, q in zip(b, s, e)]
        if np.prod(o) > LIMIT:
            return False
        self.emit("Pad", ins, [o], **at)
        return True

    def model(self):
        for i in self.inputs:
            if i not in self.used:
                self.emit("Neg", [i], [self.shape[i]])
        outs = [v for v in self.shape if v not in self.used]
        info = [helper.make_tensor_value_info(n, TensorProto.FLOAT, self.shape[n]) for n in self.inputs]
        oinfo = [helper.make_tensor_value_info(n, TensorProto.FLOAT, self.shape[n]) for n in outs]
        g = helper.make_graph(self.nodes, "g", info, oinfo, initializer=self.inits)
        m = helper.make_model(g, opset_imports=[helper.make_opsetid("", self.c["opset"])])
        m.ir_version = 8
        onnx.checker.check_model(m)
        return m


@st.composite
def case(draw, grad=False):
    c = {"prec": draw(st.sampled_from(["l", "l", "l", "h"])), "debug": draw(st.integers(0, 3)) > 0, "multi": draw(st.integers(0, 7)) == 0,
         "opset": draw(st.sampled_from([13, 15, 18])), "names": draw(st.sampled_from(["plain", "none", "slash"])),
         "shuffle": draw(st.booleans()), "rawdata": draw(st.booleans()), "file": draw(st.integers(0, 4)) == 0,
         "seed": draw(gen.SEED), "exotic": not grad and draw(st.integers(0, 3)) == 0, "grad": grad, "mults": 2}
    n = draw(st.integers(1, 3))
    shapes = []
    for i in range(draw(st.sampled_from([1, 1, 1, 2, 3]))):
        if shapes and draw(st.integers(0, 3)):
            shapes.append(list(shapes[0]))
        elif draw(st.integers(0, 2)):
            shapes.append([n, draw(st.integers(1, 4)), draw(st.integers(1, 6)), draw(st.integers(1, 6))])
        else:
            shapes.append([n] + draw(st.lists(st.integers(1, 5), min_size=1, max_size=2)))
    c["xs"] = [draw(gen.reals_desc(s, -2, 2)) for s in shapes]
    c["rebatch"] = not grad and draw(st.integers(0, 2)) == 0
    pool = [o for o in BODY4 + BODY2 + ANY + ANY if not (grad and o in NOGRAD)]
    if len(shapes[0]) == 4:
        pool = pool + [o for o in BODY4 if not (grad and o in NOGRAD)]
    if grad:
        pool = pool + ["Conv"] * 4 * (len(shapes[0]) == 4) + ["MatMul", "Gemm"] * 3 * (len(shapes[0]) == 2) + ["AddConst"] * 2
    ints = st.lists(st.integers(0, 59), min_size=4, max_size=16)
    c["ops"] = [[draw(st.sampled_from(pool)), draw(ints)] for _ in range(draw(st.integers(1, 5)))]
    c["tail"] = None
    if not c["rebatch"] and draw(st.integers(0, 3)) == 0:
        c["tail"] = [draw(st.sampled_from([o for o in TAIL if not (grad and o in NOGRAD)])), draw(ints)]
    if grad:
        c["rate"] = draw(st.sampled_from([0.5, 0.125, 1.0]))
        c["lazy"] = draw(st.booleans())
        c["steps"] = draw(st.integers(1, 2))
    return c


def build(c):
    c = dict(c)
    b = Builder(c, [d["shape"] for d in c["xs"]])
    for kind, ints in c["ops"]:
        b.op(kind, ints)
    if c["tail"]:
        b.op(c["tail"][0], c["tail"][1], True)
    return b, b.model()


def reference(m, xs):
    from onnx.reference import ReferenceEvaluator

    return ReferenceEvaluator(m).run(None, {i.name: x.astype(np.float32) for i, x in zip(m.graph.input, xs)})


def cross_check(A, m, want, xs):
    """The bounded evaluator must agree with the reference implementation of ONNX."""
    if any(a.name == "auto_pad" for n in m.graph.node for a in n.attribute):
        return  # the reference fails for some
    try:
        ref = reference(m, xs)
    except Exception:
        count("unreferenced")  # the reference refuses some attributes, like negative padding
        return
    for o, w, r in zip(m.graph.output, want, ref):
        if any(n.op_type in ("Sigmoid", "Softmax") for n in m.graph.node):
            break  # approximated
        if m.opset_import[0].version < 15 and any(n.op_type == "BatchNormalization" for n in m.graph.node):
            break  # the reference takes these for training
        if w.shape != r.shape or np.any(np.abs(w.v - r) > 1e-3 * (1 + np.abs(r)) + w.e):
            raise HarnessError("evaluator and ONNX reference differ at %s: %s vs %s" % (o.name, w.v, r))


def convert(c, m, shapes):
    conv = tfe.convert.Converter(config=tfe.get_config())
    kept = [list(s) for s in shapes]
    arg = [list(s) for s in shapes] if len(shapes) > 1 or c["seed"] % 2 else list(shapes[0])
    before = repr(arg)
    if c["file"]:
        with tempfile.TemporaryDirectory() as d:
            f = os.path.join(d, "m.onnx")
            onnx.save(m, f)
            model = conv.convert(f, arg, model_provider="weights-provider")
    else:
        model = conv.convert(m, arg, model_provider=None if c["seed"] % 3 else "weights-provider")
    if repr(arg) != before:
        raise Violation("convert changed the caller's list of shapes from %s to %s" % (kept, arg))
    return model


def setup(c):
    p = P.aby3(c["prec"], debug=c["debug"], multi=c["multi"], names=NAMES)
    return p, nn.Arith(p, "aby3")


NAMES = ["server0", "server1", "server2", "weights-provider"]


def within_range(g):
    return all(np.all(np.abs(v.v) + v.e < 200) for v in g.val.values())


def describe(m, shapes):
    return "%s on %s" % ([(n.op_type, {a.name: helper.get_attribute_value(a) for a in n.attribute}) for n in m.graph.node], shapes)


def run(c):
    b, m = build(c)
    if any(n.op_type == "Softmax" for n in m.graph.node):
        c = dict(c, debug=True)  # sorting in a graph needs a TensorFlow older than the one here (refused)
    p, A = setup(c)
    shapes = [list(d["shape"]) for d in c["xs"]]
    xs = [np.asarray(gen.real_array(d)) for d in c["xs"]]
    what = describe(m, shapes)
    priv = [p.define_private_variable(x).read_value() for x in xs]
    rx = [R(A.read(x)) for x in priv]
    g = Graph(A, m)
    g.forward(rx)
    if not within_range(g):
        return False
    want = [g.val[o.name] for o in m.graph.output]
    cross_check(A, m, want, xs)
    n = shapes[0][0]
    runs = [(priv, rx, 32)]
    if c["rebatch"]:
        # the same model on a batch of another size, in pieces
        k = 1 + c["seed"] % 4
        xs2 = [np.resize(np.roll(x, 1, axis=0) * 0.75, (k,) + x.shape[1:]) for x in xs]
        priv2 = [p.define_private_variable(x).read_value() for x in xs2]
        runs.append((priv2, [R(A.read(x)) for x in priv2], 1 + c["seed"] % 2))
        runs.append((priv, rx, 1))
    try:
        model = convert(c, m, shapes)
        outs = [model.predict(x if len(x) > 1 else x[0], batch_size=bs, reveal=True) for x, _, bs in runs]
    except (Violation, HarnessError):
        raise
    except Exception:
        if b.exotic:
            count("refused")
            return True
        raise
    for out, (_, r, bs) in zip(outs, runs):
        g.forward(r)
        want = [g.val[o.name] for o in m.graph.output]
        out = out if isinstance(out, list) else [out]
        if len(out) != len(want):
            raise Violation("%s: %d outputs, expected %d" % (what, len(out), len(want)))
        for i, (o, w) in enumerate(zip(out, want)):
            close(np.asarray(o, dtype=np.float64), w.v, w.e + A.u + 2e-7 * np.abs(w.v), what + ": output %d" % i)
    count("nodes", len(m.graph.node))
    return len(m.graph.node) > 0


class Loss:
    def __init__(self, lazy):
        self.lazy_normalization = lazy


def run_grad(c):
    b, m = build(c)
    p, A = setup(c)
    shapes = [list(d["shape"]) for d in c["xs"]]
    xs = [np.asarray(gen.real_array(d)) for d in c["xs"]]
    what = describe(m, shapes)
    rng = np.random.Generator(np.random.PCG64(c["seed"]))
    g = Graph(A, m)
    model = convert(c, m, shapes)
    model.compile(tfe.keras.optimizers.SGD(learning_rate=c["rate"]), Loss(c["lazy"]))
    for k in range(c["steps"] + 1):
        priv = [p.define_private_variable(x * (1, 0.5, -0.75)[k]).read_value() for x in xs]
        rx = [R(A.read(x)) for x in priv]
        want = g.forward(rx)
        if not within_range(g):
            return k > 1
        got = model.call(priv if len(priv) > 1 else priv[0])
        got = got if isinstance(got, list) else [got]
        for i, (o, w) in enumerate(zip(got, want)):
            close(A.read(o), w.v, w.e + 1e-9, what + ": output %d after %d steps" % (i, k))
        if k == c["steps"]:
            break
        ds = [rng.uniform(-1, 1, size=w.shape) for w in want]
        pd = [p.define_private_variable(d).read_value() for d in ds]
        gw = g.backward([R(A.read(d)) for d in pd], c["rate"], c["lazy"])
        if any(np.any(np.abs(v.v) > 200) for v in gw + list(g.w.values())):
            return k > 0
        gx = model.backward(pd if len(pd) > 1 else pd[0])
        if len(gx) != len(gw):
            raise Violation("%s: %d gradients for %d inputs" % (what, len(gx), len(gw)))
        for i, (o, w) in enumerate(zip(gx, gw)):
            close(A.read(o), w.v, w.e + 1e-9, what + ": gradient of input %d" % i)
    return b.trained > 0 or len(m.graph.node) > 1


FAMILIES = [
    Family("graphs", lambda: case(), run, 300, shards=6, cost=4,
           rule="ONNX graphs over the registered nodes, their attributes given or left out, run whole or in batches"),
    Family("gradients", lambda: case(True), run_grad, 150, shards=3, cost=6,
           rule="graphs of nodes with a gradient, one or two steps; non-trivial with weights or more than one node"),
]


# -------------------------------------------------------------------- Keras models
@st.composite
def case_keras(draw):
    c = {"prec": draw(st.sampled_from(["l", "l", "h"])), "debug": draw(st.integers(0, 3)) > 0, "multi": draw(st.integers(0, 7)) == 0,
         "seed": draw(gen.SEED), "second": draw(st.integers(0, 3)) == 0, "file": False}
    n = draw(st.integers(1, 3))
    img = draw(st.integers(0, 3)) > 0
    shape = [n] + ([draw(st.integers(3, 6)), draw(st.integers(3, 6)), draw(st.integers(1, 3))] if img else [draw(st.integers(1, 5))])
    c["x"] = draw(gen.reals_desc(shape, -2, 2))
    kinds = ["Conv2D"] * 3 + ["DepthwiseConv2D", "AveragePooling2D", "MaxPooling2D", "BatchNormalization", "ReLU", "sigmoid", "Residual",
                              "Concatenate", "ZeroPadding2D", "Dropout", "Permute", "Gate"] if img else [
        "Dense", "Dense", "ReLU", "sigmoid", "Residual", "Concatenate"]
    c["layers"] = [[draw(st.sampled_from(kinds)), draw(st.lists(st.integers(0, 59), min_size=6, max_size=6))]
                   for _ in range(draw(st.integers(1, 4)))]
    c["head"] = draw(st.sampled_from(["flat", "gap", "gmp", "none"])) if img else "none"
    c["dense"] = draw(st.sampled_from([0, 1, 1, 2]))
    c["softmax"] = draw(st.integers(0, 5)) == 0
    return c


def keras_model(c):
    K = tf.keras.layers
    rng = np.random.Generator(np.random.PCG64(c["seed"]))
    shape = c["x"]["shape"]
    inputs = [tf.keras.Input(shape=shape[1:]) for _ in range(1 + c["second"])]
    x = inputs[0]
    if c["second"]:
        x = K.Add()([inputs[0], inputs[1]]) if c["seed"] % 2 else K.Subtract()(inputs)
    for kind, v in c["layers"]:
        img = len(x.shape) == 4
        same = "same" if v[0] % 2 else "valid"
        if img:
            h, w = x.shape[1:3]
            k = 1 + v[1] % min(3, h, w)
            s = 1 + v[2] % 2
        if kind == "Conv2D":
            x = K.Conv2D(1 + v[3] % 3, k, strides=s, padding=same, use_bias=bool(v[4] % 2))(x)
        elif kind == "DepthwiseConv2D":
            x = K.DepthwiseConv2D(k, strides=s, padding=same, depth_multiplier=1 + v[3] % 2, use_bias=bool(v[4] % 2))(x)
        elif kind in ("AveragePooling2D", "MaxPooling2D"):
            x = getattr(K, kind)((k, 1 + v[3] % min(3, w)), strides=(s, 1 + v[4] % 2), padding=same)(x)
        elif kind == "BatchNormalization":
            x = K.BatchNormalization(epsilon=[1e-3, 0.1][v[0] % 2], scale=bool(v[1] % 2), center=bool(v[2] % 2))(x)
        elif kind == "ReLU":
            x = K.ReLU()(x)
        elif kind == "sigmoid":
            x = K.Activation("sigmoid")(x)
        elif kind == "Dense":
            x = K.Dense(1 + v[0] % 4, use_bias=bool(v[1] % 2))(x)
        elif kind == "Residual":
            y = K.Conv2D(x.shape[-1], 3, padding="same")(x) if img else K.Dense(x.shape[-1])(x)
            x = K.Add()([x, y]) if v[0] % 2 else K.Subtract()([y, x])
        elif kind == "Concatenate":
            y = K.ReLU()(x)
            x = K.Concatenate(axis=1 + v[0] % (len(x.shape) - 1))([y, x])
        elif kind == "ZeroPadding2D":
            x = K.ZeroPadding2D(((v[0] % 2, v[1] % 3), (v[2] % 3, v[3] % 2)))(x)
        elif kind == "Dropout":
            x = K.Dropout(0.5)(x)
        elif kind == "Permute":
            x = K.Permute([(2, 1, 3), (3, 1, 2), (1, 3, 2)][v[0] % 3])(x)
        elif kind == "Gate":
            x = K.Multiply()([x, K.Activation("sigmoid")(K.GlobalAveragePooling2D(keepdims=True)(x))])
    if len(x.shape) == 4:
        if c["head"] == "flat":
            x = K.Flatten()(x)
        elif c["head"] == "gap":
            x = K.GlobalAveragePooling2D()(x)
        elif c["head"] == "gmp":
            x = K.GlobalMaxPooling2D()(x)
    if len(x.shape) == 2:
        for i in range(c["dense"]):
            x = K.Dense(2 + i, activation=None if i else "relu")(x)
        if c["softmax"]:
            x = K.Softmax()(x)
    m = tf.keras.Model(inputs if c["second"] else inputs[0], x)
    ws = []
    for w in m.weights:
        var = "variance" in w.name
        ws.append(rng.uniform(0.3 if var else -1, 3 if var else 1, size=w.shape).astype(np.float32))
    m.set_weights(ws)
    return m


def plain_onnx(m, shapes):
    import tf2onnx

    spec = [tf.TensorSpec(s, tf.float32, name="in%d" % i) for i, s in enumerate(shapes)]
    return tf2onnx.convert.from_keras(m, input_signature=spec)[0]


def run_keras(c):
    try:
        km = keras_model(c)
    except ValueError:
        return False  # no pixels left
    shape = list(c["x"]["shape"])
    xs = [np.asarray(gen.real_array(c["x"])).astype(np.float32)]
    if c["second"]:
        xs.append(xs[0][::-1] * np.float32(0.5))
    truth = km(xs if len(xs) > 1 else xs[0], training=False).numpy()
    shapes = [shape] * len(xs)
    m = plain_onnx(km, shapes)
    if any(n.op_type == "Softmax" for n in m.graph.node):
        c = dict(c, debug=True)
    p, A = setup(c)
    priv = [p.define_private_variable(x).read_value() for x in xs]
    g = Graph(A, m)
    rx = [R(A.read(x)) for x in priv]
    order = range(len(rx))
    [w] = g.forward([rx[i] for i in order])
    if not within_range(g):
        return False
    what = "Keras model %s %s as %s" % ([type(q).__name__ for q in km.layers], shapes, [n.op_type for n in m.graph.node])
    if not any(n.op_type in ("Sigmoid", "Softmax") for n in m.graph.node) and np.any(np.abs(w.v - truth) > w.e + 1e-3 * (1 + np.abs(truth))):
        raise HarnessError("%s: evaluator and Keras differ: %s vs %s" % (what, w.v, truth))
    conv = tfe.convert.Converter(config=tfe.get_config())
    arg = [list(s) for s in shapes]
    model = conv.convert(km, arg if len(arg) > 1 else arg[0], model_provider=tfe.get_config().get_player("weights-provider"))
    out = model.predict(priv if len(priv) > 1 else priv[0], batch_size=32, reveal=True)
    close(np.asarray(out, dtype=np.float64), w.v, w.e + A.u + 1e-5 * np.maximum(1, np.abs(w.v)), what)
    count("nodes", len(m.graph.node))
    return len(km.layers) > 2


FAMILIES.append(
    Family("keras", case_keras, run_keras, 60, shards=2, cost=14,
           rule="Keras models converted through ONNX; non-trivial with more than one layer"))
