"""What one server handles does not depend on the secrets.

A program runs on many copies of one constant secret, then of another.  Every tensor that an
operation on a server's device reads or produces is recorded; for each of them, for the sums
of shares a server holds, and for pairs of them (sum, difference, xor), the two empirical
distributions are compared.  A correct protocol makes them equal; the comparison raises an
alarm only beyond a chi-squared value whose probability is below 1e-15."""
import random

import numpy as np
import tensorflow as tf
from hypothesis import strategies as st
from tensorflow.python.framework import op_callbacks

from .. import env, gen, prot as P
from ..core import Family, Violation, count
from ..env import tfe
from ..prot import ARITH, BOOL
from tf_encrypted.tensor import fixed

N = 2048
NAMES = ["master", "server0", "server1", "server2", "alice", "bob"]
DEV = {"/job:localhost/replica:0/task:0/device:CPU:%d" % i: n for i, n in enumerate(NAMES)}
SERVERS = ("server0", "server1", "server2")


class Views:
    """Context: records the tensors each server handles, in order."""

    def __init__(self):
        self.seen = {s: [] for s in SERVERS}
        self.have = set()

    def note(self, who, t, label):
        if who not in self.seen:
            return
        key = (who, t._id)
        if key in self.have:
            return
        self.have.add(key)
        if t.dtype in (tf.resource, tf.variant, tf.string):
            return
        if N not in t.shape:
            return
        self.seen[who].append((label, tuple(t.shape), columns(t)))

    def __call__(self, op_type, inputs, attrs, outputs, op_name=None, graph=None):
        if graph is not None:
            return None
        if isinstance(op_type, bytes):
            op_type = op_type.decode()
        for o in outputs:
            who = DEV.get(getattr(o, "device", None))
            if who:
                for i in inputs:
                    if isinstance(i, tf.Tensor) and hasattr(i, "_id"):
                        self.note(who, i, "input of " + op_type)
                self.note(who, o, "result of " + op_type)
        return None

    def __enter__(self):
        op_callbacks.add_op_callback(self)
        return self

    def __exit__(self, *a):
        op_callbacks.remove_op_callback(self)


def columns(t):
    """Tensor -> at most six arrays of N integers (64-bit patterns), one entry per copy of the secrets."""
    a = t.numpy() if hasattr(t, "numpy") else np.asarray(t)
    ax = [i for i, d in enumerate(a.shape) if d == N]
    a = np.moveaxis(a, ax[0], 0)
    if len(ax) > 1:
        # every copy against every copy: the diagonal
        a = np.moveaxis(np.moveaxis(a, ax[1], 1).diagonal(0, 0, 1), -1, 0)
    a = a.reshape(N, -1)
    if a.shape[1] > 6:
        a = a[:, np.linspace(0, a.shape[1] - 1, 6).astype(int)]
    if a.dtype.kind == "f":
        a = a.astype(np.float64).view(np.int64)
    return [np.ascontiguousarray(a[:, j]).astype(np.int64) for j in range(a.shape[1])]


def excess(a, b, which):
    """a, b: [P, N].  Per row, the largest excess of the two-sample chi-squared statistics of the bytes
    `which` over a bound exceeded with probability below 1e-16 when the distributions are equal."""
    n = len(a)
    worst = np.full([n], -np.inf)
    off = (256 * np.arange(n))[:, None]
    a8 = np.ascontiguousarray(a).view(np.uint8).reshape(n, N, 8)
    b8 = np.ascontiguousarray(b).view(np.uint8).reshape(n, N, 8)
    for k in which:
        ca = np.bincount((a8[:, :, k] + off).ravel(), minlength=256 * n).reshape(n, 256).astype(np.float32)
        cb = np.bincount((b8[:, :, k] + off).ravel(), minlength=256 * n).reshape(n, 256).astype(np.float32)
        s = ca + cb
        v = ((ca - cb) ** 2 / np.maximum(s, 1)).sum(1)
        free = np.maximum((s > 0).sum(1) - 1, 0)
        worst = np.maximum(worst, v - (free + 2 * np.sqrt(free * 40.0) + 80.0))  # Laurent-Massart bound
    return worst


def differ(a, b):
    return excess(a[None], b[None], range(8))[0] > 0


def lists(x):
    return x if isinstance(x, (list, tuple)) else [x]


def held(p, regs, kind):
    """Sums (and xors) of the shares that each server holds of each register."""
    out = {s: [] for s in SERVERS}
    for i, r in enumerate(regs):
        if kind == "aby3" and hasattr(r, "shares"):
            for s in range(3):
                a, b = r.unwrapped[s]
                if N not in a.value.shape:
                    continue
                both = (a ^ b) if r.share_type == BOOL else (a + b)
                for c in columns(both.value):
                    out[SERVERS[s]].append(("shares held of value %d" % i, c))
    return out


RUNS = 6


class Program:
    """Runs of one program on two settings of the secrets, made on demand."""

    def __init__(self, prog, kind, secrets, seed, run):
        self.prog, self.kind, self.secrets, self.seed, self.run = prog, kind, secrets, seed, run
        self.runs = [[], []]

    def get(self, who, k):
        while len(self.runs[who]) <= k:
            env.clear_memo()
            random.seed(self.seed)  # which server generates a share from a seed is a public coin
            with Views() as v:
                regs = self.run(self.secrets[who])
            h = held(None, regs, self.kind)
            self.runs[who].append({s: (v.seen[s], h[s]) for s in SERVERS})
        return self.runs[who][k]

    def item(self, s, key, r):
        """An array of N numbers a server can compute: key = (source, index, column) or (op, key, key)."""
        if key[0] in FUN:
            return FUN[key[0]](self.item(s, key[1], r), self.item(s, key[2], r))
        if key[0] == "polynomial":
            z = np.zeros([N], np.int64)
            for mono in key[1]:
                t = np.ones([N], np.int64)
                for k, bit in mono:
                    t &= self.item(s, k, r) >> bit & 1
                z ^= t
            return z
        seen, shares = r[s]
        if key[0] == "tensor":
            return seen[key[1]][2][key[2]]
        return shares[key[1]][1]

    def name(self, s, key):
        if key[0] in FUN:
            return "the %s of %s and %s" % (key[0], self.name(s, key[1]), self.name(s, key[2]))
        if key[0] == "polynomial":
            used = sorted({(k, b) for mono in key[1] for k, b in mono})
            return "a polynomial of degree %d in " % max(map(len, key[1])) + ", ".join(
                "bit %d of %s" % (b, self.name(s, k)) for k, b in used[:8]) + (" and %d more" % (len(used) - 8) if len(used) > 8 else "")
        seen, shares = self.get(0, 0)[s]
        if key[0] == "tensor":
            return "tensor %d (%s)" % (key[1], seen[key[1]][0])
        return "the sum of the " + shares[key[1]][0]

    def settle(self, s, suspects):
        """Suspects -> those that differ between the secrets in every pair of runs, and never between
        two runs on the same secrets (as they do where one mask is shared by all the copies)."""
        for k in range(1, RUNS):
            left = []
            for key in suspects:
                rs = [[self.item(s, key, self.get(w, j)) for j in (0, k)] for w in range(2)]
                if not any(differ(*rs[w]) for w in range(2)) and all(differ(x, rs[1][1]) for x in rs[0]):
                    left.append(key)
            suspects = left
            if not left:
                break
        return suspects


def as_int(bits):
    return int.from_bytes(np.packbits(bits.astype(np.uint8)).tobytes(), "big")


def kernel(vecs):
    """Vectors over GF(2), as integers -> the sets of indices (bit masks) whose sum is zero."""
    piv, out = {}, []
    for i, v in enumerate(vecs):
        c = 1 << i
        while v:
            top = v.bit_length()
            if top not in piv:
                piv[top] = (v, c)
                break
            pv, pc = piv[top]
            v ^= pv
            c ^= pc
        else:
            out.append(c)
    return out


def members(c):
    return [i for i in range(c.bit_length()) if c >> i & 1]


def relations(cols):
    """Polynomials over GF(2), of degree at most two, in the bits `cols`, which vanish on every copy of
    one run and not of the other.  cols: [((key, bit), ints of run a, of run b)]"""
    out = []
    ones = (1 << N) - 1

    def search(monos, side, other):
        bad = []
        for c in kernel(side):
            idx = members(c)
            v = 0
            for i in idx:
                v ^= other[i]
            if bin(v).count("1") > 100:
                bad.append(tuple(monos[i] for i in idx))
        return bad

    names = [()] + [(q[0],) for q in cols]
    a, b = [ones] + [q[1] for q in cols], [ones] + [q[2] for q in cols]
    out += search(names, a, b) + search(names, b, a)
    if out:
        return out
    dep = {max(members(c)) for c in kernel(a)}
    keep = [i for i in range(1, len(a)) if i not in dep]
    names = [()] + [names[i] for i in keep] + [names[i] + names[j] for i in keep for j in keep if i < j]
    a, b = ([v[0]] + [v[i] for i in keep] + [v[i] & v[j] for i in keep for j in keep if i < j] for v in (a, b))
    return search(names, a, b) + search(names, b, a)


FUN = {"sum": np.add, "difference": np.subtract, "xor": np.bitwise_xor}


def compare(prog, kind, secrets, seed, run):
    pr = Program(prog, kind, secrets, seed, run)
    r0, r1 = pr.get(0, 0), pr.get(1, 0)
    rng = np.random.Generator(np.random.PCG64(seed))
    looked = 0
    for s in SERVERS:
        (va, ha), (vb, hb) = r0[s], r1[s]
        if [q[:2] for q in va] != [q[:2] for q in vb]:
            raise Violation("%s on %s: the operations or their shapes depend on the secrets (%d and %d tensors)"
                            % (prog, s, len(va), len(vb)))
        cols, known = [], set()
        for i, (qa, qb) in enumerate(zip(va, vb)):
            for j, (a, b) in enumerate(zip(qa[2], qb[2])):
                h = a.tobytes()
                if h in known:
                    continue
                known.add(h)
                if (a == a[0]).all() and np.array_equal(a, b):
                    continue  # public constant
                cols.append(("tensor", i, j))
        hs = [("held", i, 0) for i in range(len(ha))]
        m = len(cols)
        pairs = {(i, j) for i in range(m) for j in range(i + 1, min(m, i + 7))}
        if m <= 50:
            pairs |= {(i, j) for i in range(m) for j in range(i + 1, m)}
        else:
            pairs |= {tuple(sorted(map(int, q))) for q in rng.integers(0, m, size=(1000, 2)) if q[0] != q[1]}
        single = cols + hs
        if not single:
            continue
        va = np.stack([pr.item(s, k, r0) for k in single])
        vb = np.stack([pr.item(s, k, r1) for k in single])
        bad = excess(va, vb, range(8)) > 0
        suspects = [single[i] for i in np.flatnonzero(bad)]
        todo = np.array([(i, m + h) for i in range(m) for h in range(len(hs))] + sorted(pairs)).reshape(-1, 2)
        todo = todo[~(bad[todo[:, 0]] | bad[todo[:, 1]])]
        for at in range(0, len(todo), 128):
            i, j = todo[at:at + 128].T
            for nm, f in FUN.items():
                for q in np.flatnonzero(excess(f(va[i], va[j]), f(vb[i], vb[j]), (0, 3, 7)) > 0):
                    suspects.append((nm, single[i[q]], single[j[q]]))
        # relations between single bits: the inputs' shares and what follows, a window at a time
        first, rest = list(range(min(m, 12))), list(range(12, m))
        windows = [rest[at:at + 26] for at in range(0, len(rest), 26)] or [[]]
        if len(windows) > 3:
            windows = [windows[k] for k in sorted(rng.choice(len(windows), 3, replace=False))]
        for w in windows:
            bits = [(i, 0) for i in first + w]
            bits += [(int(i), int(rng.integers(1, 64))) for i in rng.choice(first + w, min(6, len(bits)), replace=False)] if bits else []
            bs = [((single[i], bit), as_int(va[i] >> bit & 1), as_int(vb[i] >> bit & 1)) for i, bit in dict.fromkeys(bits) if not bad[i]]
            suspects += [("polynomial", q) for q in relations(bs)[:50]]
            count("bits related", len(bs))
        count("tensors compared", m)
        count("pairs compared", len(pairs) + m * len(hs))
        if suspects:
            count("suspects examined further", len(suspects))
            left = pr.settle(s, suspects[:200])
            if left:
                key = left[0]
                a, b = pr.item(s, key, r0), pr.item(s, key, r1)
                raise Violation("%s: on %s, %s has another distribution for secrets %s than for %s (e.g. %s and %s), %d such"
                                % (prog, s, pr.name(s, key), secrets[0], secrets[1], a[:3].tolist(), b[:3].tolist(), len(left)))
        looked += m
    return looked


# ------------------------------------------------------------------------- programs
def ops3():
    return {
        "add": lambda p, x, y: x + y, "mul": lambda p, x, y: x * y, "square": lambda p, x, y: p.square(x),
        "mulpub": lambda p, x, y: x * 1.5, "neg": lambda p, x, y: -x,
        "trunc_local": lambda p, x, y: p.truncate(x, "local", 4),
        "trunc": lambda p, x, y: p.truncate(x, amount=4),
        "msb0_q8": lambda p, x, y: p.truncate_msb0(x, "secureq8", 4),
        "msb0_ch": lambda p, x, y: p.truncate_msb0(x, "cheetah", 4),
        "trunc2": lambda p, x, y: p.mul_trunc2(x, y),
        "msb": lambda p, x, y: p.msb(x), "bit": lambda p, x, y: p.bit_extract(x, 17),
        "gt": lambda p, x, y: p.greater_than(x, y), "eq": lambda p, x, y: p.equal(x, y),
        "relu": lambda p, x, y: p.relu(x), "max": lambda p, x, y: p.maximum(x, y),
        "select": lambda p, x, y: p.select(p.msb(x), x, y), "a2b": lambda p, x, y: p.a2b(x),
        "b2a": lambda p, x, y: p.b2a(p.a2b(x)), "b2a1": lambda p, x, y: p.b2a(p.a2b(x, 8), nbits=8, method="single"),
        "mul_ab": lambda p, x, y: p.mul_ab(x, p.msb(y)),
        "mul_ab_pub": lambda p, x, y: p.mul_ab(p.define_constant(np.ones([N])), p.msb(y)),
        "xor": lambda p, x, y: p.a2b(x) ^ p.a2b(y), "and": lambda p, x, y: p.a2b(x) & p.a2b(y),
        "or": lambda p, x, y: p.a2b(x) | p.a2b(y), "not": lambda p, x, y: ~p.a2b(x),
        "poly": lambda p, x, y: p.polynomial(x, [0.5, 1.0, 0.25]), "sigmoid": lambda p, x, y: p.sigmoid(x),
        "matmul": lambda p, x, y: p.matmul(p.reshape(x, [N, 1, 1]), p.reshape(y, [N, 1, 1])),
        "matmul2": lambda p, x, y: p.matmul(p.stack([p.expand_dims(x, 1), p.expand_dims(y, 1)], axis=2),
                                            p.stack([p.expand_dims(x, 1), p.expand_dims(y, 1)], axis=1)),
        "conv": lambda p, x, y: p.conv2d(p.reshape(x, [N, 1, 1, 1]), p.reshape(y, [1, 1, 1, N]), (1, 1), "SAME"),
        "concat": lambda p, x, y: p.stack([x, y], axis=1) * p.stack([y, x], axis=1),
        "recip": lambda p, x, y: p.reciprocal(x), "exp": lambda p, x, y: p.exp(x),
        "cmpswap": lambda p, x, y: list(p.cmp_swap(x, y)), "eqz": lambda p, x, y: p.equal_zero(x),
        "lt_pub": lambda p, x, y: p.less_than(x, 1.0), "div": lambda p, x, y: x / 3.0,
        "sum": lambda p, x, y: p.reduce_sum(p.stack([x, y], axis=1), axis=1),
        "maxpool": lambda p, x, y: p.reduce_max(p.stack([x, y], axis=1), axis=1),
        "argmax": lambda p, x, y: p.argmax(p.stack([x, y], axis=1), axis=1),
        "sort": lambda p, x, y: p.sort(p.stack([x, y], axis=1), axis=1),
        "bits": lambda p, x, y: p.bits(p.a2b(x), bitsize=4),
    }


def ops2(snn):
    o = {
        "add": lambda p, x, y: x + y, "sub": lambda p, x, y: x - y, "mul": lambda p, x, y: x * y,
        "square": lambda p, x, y: p.square(x), "mulpub": lambda p, x, y: x * 1.5, "trunc": lambda p, x, y: p.truncate(x),
        "div": lambda p, x, y: x / 3.0, "sigmoid": lambda p, x, y: p.sigmoid(x), "mask": lambda p, x, y: p.mask(x).unmasked,
        "matmul": lambda p, x, y: p.matmul(p.reshape(x, [N, 1]), p.reshape(y, [1, N])),
        "concat": lambda p, x, y: p.concat([p.reshape(x, [N, 1]), p.reshape(y, [N, 1])], axis=1) *
        p.concat([p.reshape(y, [N, 1]), p.reshape(x, [N, 1])], axis=1),
        "maskmul": lambda p, x, y: p.mul(p.mask(x), p.mask(y)), "sum": lambda p, x, y: p.add_n([x, y, x]),
        "conv": lambda p, x, y: p.conv2d(p.reshape(x, [N, 1, 1, 1]), p.reshape(y, [1, 1, 1, N]), [1, 1], "SAME"),
        "poolavg": lambda p, x, y: p.avgpool2d(p.reshape(p.concat([p.reshape(x, [N, 1])] * 4, axis=1), [N, 1, 2, 2]),
                                               [2, 2], [1, 1], "VALID"),
    }
    if snn:
        o.update({
            "less": lambda p, x, y: p.less(x, y), "msb": lambda p, x, y: p.msb(x),
            "relu": lambda p, x, y: p.relu(x), "max": lambda p, x, y: p.maximum(x, y),
            "select": lambda p, x, y: p.select(p.msb(x), x, y), "ge0": lambda p, x, y: p.non_negative(x),
            "rmax": lambda p, x, y: p.reduce_max(p.concat([p.reshape(x, [N, 1]), p.reshape(y, [N, 1])], axis=1), axis=1),
            "and": lambda p, x, y: p.bitwise_and(p.msb(x), p.msb(y)), "or": lambda p, x, y: p.bitwise_or(p.msb(x), p.msb(y)),
            "xor": lambda p, x, y: p.bitwise_xor(p.msb(x), p.msb(y)), "argmax": lambda p, x, y: p.argmax(
                p.concat([p.reshape(x, [N, 1]), p.reshape(y, [N, 1])], axis=1), axis=1),
        })
    return o


OPS3, POND, SNN = ops3(), ops2(False), ops2(True)
secret = st.one_of(st.sampled_from([0.0, 1.0, -1.0, 0.25, -2.5, 3.0, 1 / 256.0, -3.0]),
                   st.integers(-196608, 196608).map(lambda k: k / 65536.0),
                   st.integers(-98304, 98303).map(lambda k: (2 * k + 1) / 65536.0))


@st.composite
def case(draw, kind):
    ops = sorted({"aby3": OPS3, "pond": POND, "securenn": SNN}[kind])
    return {"kind": kind, "cfg": draw(st.sampled_from({"aby3": ["l"], "pond": ["fixed64"] * 4 + ["fixed64_ni"] * 2 + ["fixed100"],
                                                      "securenn": ["fixed64"]}[kind])),
            "prog": [draw(st.sampled_from(ops))] + ([draw(st.sampled_from(["add", "mul"]))] if draw(st.integers(0, 3)) == 0 else []),
            "a": [draw(secret), draw(secret)], "b": [draw(secret), draw(secret)], "bool": draw(st.integers(0, 3)) == 0,
            "debug": draw(st.booleans()), "wide": draw(st.booleans()), "out": draw(st.integers(0, 3)) == 0, "s": draw(gen.SEED)}


def check(c):
    if c["a"] == c["b"]:
        return False
    kind = c["kind"]
    env.use_config(debug=c["debug"], multi=True, names=NAMES)
    if kind == "aby3":
        p = tfe.protocol.ABY3(fixedpoint_config=c["cfg"])
        table = OPS3
    else:
        cls = tfe.protocol.Pond if kind == "pond" else tfe.protocol.SecureNN
        cfg = "fixed64" if set(c["prog"]) & {"matmul", "conv"} else c["cfg"]  # quadratic in N, and slow in CRT form
        p = cls(fixedpoint_config=getattr(fixed, cfg))
        table = POND if kind == "pond" else SNN
    tfe.set_protocol(p)

    # Pond hides what it truncates statistically, for values within its range
    small = kind != "aby3" and "sigmoid" in c["prog"]

    def run(sec):
        sec = [v / 4 for v in sec] if small else [v * 8 for v in sec] if kind == "aby3" and c["wide"] else sec
        x = p.define_private_input("alice", lambda: tf.constant(np.full([N], sec[0])))
        y = p.define_private_input("bob", lambda: tf.constant(np.full([N], sec[1])))
        regs = [x, y]
        if kind == "aby3" and c["bool"]:
            regs.append(p.define_private_input("bob", lambda: tf.constant(np.full([N], sec[1])), share_type=BOOL))
        for o in c["prog"]:
            z = table[o](p, regs[0] if len(regs) < 3 else regs[0], y)
            z = lists(z)
            regs += z
            if c["out"] and len(z) == 1:
                try:
                    p.define_output("alice", z[0], lambda v: tf.identity(v))
                except NotImplementedError:
                    pass
            if hasattr(z[0], "share_type") and z[0].share_type == BOOL or tuple(z[0].shape) != (N,) or \
                    getattr(z[0], "is_scaled", True) is False:
                break
            regs[0] = z[0]
        return regs
    return compare("%s %s" % (kind, "+".join(c["prog"])), kind, [c["a"], c["b"]], c["s"], run) > 0


FAMILIES = [
    Family("aby3", lambda: case("aby3"), check, 150, shards=6, budget=70, cost=6, rule="the secrets differ and tensors were compared"),
    Family("pond", lambda: case("pond"), check, 50, shards=1, cost=3, rule="the secrets differ and tensors were compared"),
    Family("securenn", lambda: case("securenn"), check, 40, shards=1, cost=8, rule="the secrets differ and tensors were compared"),
]
