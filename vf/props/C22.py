"""Share files: what is written reads back, in any batching, over any number of passes."""
import os
import shutil
import tempfile

import numpy as np
import tensorflow as tf
from hypothesis import strategies as st

from .. import env, gen, prot as P
from ..core import Family, Violation, count
from ..env import tfe
from ..prot import ARITH, exact
from tf_encrypted.operations import dataset


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="vf_c22_")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


# ----------------------------------------------------------------------- round trip
@st.composite
def case(draw):
    files = draw(st.integers(1, 3))
    per = [draw(st.integers(1, 4)) for _ in range(files)]
    total = sum(per)
    k = draw(st.sampled_from([q for q in range(1, total + 1) if total % q == 0]))
    return {"prec": draw(st.sampled_from(["l", "h"])), "debug": draw(st.booleans()),
            "multi": draw(st.integers(0, 4)) == 0, "rows": draw(st.integers(1, 4)),
            "rest": draw(gen.shapes(0, 2, 3)), "per": per, "k": k,
            "reads": draw(st.integers(1, 7)), "buf": draw(st.integers(1, 3)),
            "stale": draw(st.booleans()), "src": draw(st.sampled_from(["var", "tensor", "sum", "prod"])),
            "again": draw(st.booleans()), "s": draw(gen.SEED), "lst": draw(st.booleans()),
            "k_": draw(st.sampled_from(["reals", "ring"]))}


def run(c):
    p = P.aby3(c["prec"], debug=c["debug"], multi=c["multi"])
    n = p.default_nbits
    shape = [c["rows"]] + c["rest"]
    rng = np.random.Generator(np.random.PCG64(c["s"]))

    def make(i):
        if c["k_"] == "ring":
            v = gen.int_array({"shape": shape, "k": ("uniform", "edge")[i % 2], "s": c["s"] + i}, n)
            t = P.private(p, v, False, ARITH, None, "tensor")
            t.is_scaled = True
        else:
            t = P.private(p, rng.uniform(-900, 900, size=shape), True, ARITH, None,
                          "var" if c["src"] == "var" else "tensor")
        if c["src"] == "sum":
            t = t + t
        elif c["src"] == "prod" and c["k_"] != "ring":
            t = t * P.private(p, rng.uniform(-1, 1, size=shape), True, ARITH)
        return t

    with Scratch() as d:
        prefixes, want, raw = [], [], []
        i = 0
        for f, cnt in enumerate(c["per"]):
            pre = os.path.join(d, "part%d" % f)
            prefixes.append(pre)
            if c["stale"]:  # an earlier run's records, to be replaced
                p.write(make(50), pre, append=False)
                p.write(make(51), pre, append=True)
            for q in range(cnt):
                t = make(i)
                i += 1
                if q == 0 and c["stale"]:
                    p.write(t, pre, append=False)
                elif q == 0:
                    t.write(pre)
                else:
                    p.write(t, pre, append=True)
                want.append(P.recon(t))
                raw.append([[P.ints(t.unwrapped[a][b]) for b in range(2)] for a in range(3)])
        out = [c["rows"] * c["k"]] + c["rest"]
        shp = list(out)
        src = prefixes[0] if len(prefixes) == 1 and not c["lst"] else prefixes
        streams = [p.read(src, c["rows"], shp, c["buf"])]
        if c["again"]:
            streams.append(p.read(src, c["rows"], shp, c["buf"]))
        pos = [0] * len(streams)
        for r in range(c["reads"]):
            w = r % len(streams)
            idx = [(pos[w] + q) % len(want) for q in range(c["k"])]
            pos[w] += c["k"]
            t = next(streams[w])
            what = "read %d of reader %d (records %s)" % (r, w, idx)
            if [int(q) for q in t.shape] != out:
                raise Violation("%s: shape %s, expected %s" % (what, t.shape, out))
            exact(P.recon(t, what=what), np.concatenate([want[q] for q in idx]), what)
            for a in range(3):
                for b in range(2):
                    exact(P.ints(t.unwrapped[a][b]), np.concatenate([raw[q][a][b] for q in idx]),
                          what + " share %d.%d" % (a, b))
            if c["k_"] != "ring":
                exact(P.reveal_all(t, what), np.concatenate([want[q] for q in idx]), what + " revealed")
            if not t.is_scaled or t.share_type != ARITH:
                raise Violation("%s: is_scaled=%s, share type %s" % (what, t.is_scaled, t.share_type))
        if shp != out:
            raise Violation("reading changed the caller's shape to %s" % shp)
        names = sorted(os.listdir(d))
        if len(names) != 6 * len(prefixes):
            raise Violation("expected six files per tensor, found %s" % names)
        count("records", len(want))
    return True


# --------------------------------------------------------------------------- secrecy
@st.composite
def secret_case(draw):
    return {"prec": draw(st.sampled_from(["l", "h"])), "multi": draw(st.booleans()), "debug": draw(st.booleans()),
            "v": draw(st.sampled_from([0.0, 1.0, -1.0, 0.5, 1000.0, -3.25])), "n": 2048, "s": draw(gen.SEED)}


def secret(c):
    p = P.aby3(c["prec"], debug=c["debug"], multi=c["multi"])
    N = c["n"]
    t = P.private(p, np.full(N, c["v"]), True, ARITH)
    with Scratch() as d:
        pre = os.path.join(d, "x")
        t.write(pre)
        for i in range(3):
            for j in range(2):
                recs = list(tf.data.TFRecordDataset(["%s_share%d%d" % (pre, i, j)]))
                if len(recs) != 1:
                    raise Violation("file %d%d holds %d records" % (i, j, len(recs)))
                w = tf.io.parse_tensor(recs[0], out_type=tf.int64).numpy().reshape(-1).view(np.uint64)
                if w.size != N * (p.default_nbits // 64):
                    raise Violation("file %d%d holds %d words" % (i, j, w.size))
                if len(np.unique(w)) != w.size:  # 64-bit words: a repeat is a 2^-42 event
                    raise Violation("file %d%d repeats a share word: shares of equal elements coincide" % (i, j))
                bits = np.unpackbits(w.view(np.uint8).reshape(-1, 8), axis=1).mean(axis=0)
                if np.max(np.abs(bits - 0.5)) > 7.5 / (2 * np.sqrt(len(w))):
                    raise Violation("file %d%d: the bits of the stored share of %s are not balanced: %s"
                                    % (i, j, c["v"], np.round(bits, 3)))
    return True


# ------------------------------------------------------------------------ record writer
@st.composite
def rec_case(draw):
    return {"ops": [list(o) for o in draw(st.lists(st.tuples(
        st.integers(0, 2), st.booleans(), st.sampled_from([0, 1, 7, 100, 5000, 300000]), gen.SEED),
        min_size=1, max_size=8))], "bad": draw(st.sampled_from([None, None, "dir", "full"])),
        "at": draw(st.integers(0, 7)), "bapp": draw(st.booleans())}


def rec_run(c):
    with Scratch() as d:
        model = {}
        for q, (f, app, size, s) in enumerate(c["ops"]):
            if c["bad"] and q == c["at"] % len(c["ops"]):
                # a write that cannot succeed must be reported, and must not disturb the files
                target = os.path.join(d, "missing", "r") if c["bad"] == "dir" else "/dev/full"
                try:
                    dataset.write_record(target, b"x" * size, append=c["bapp"])
                except tf.errors.OpError:
                    count("failed writes reported")
                else:
                    raise Violation("a record written to %s was lost without an error" % target)
            name = os.path.join(d, "r%d" % f)
            rec = np.random.Generator(np.random.PCG64(s)).bytes(size)
            if app and f % 2 == 0:
                dataset.write_record(name, rec)
            else:
                dataset.write_record(name, rec, append=app)
            model[f] = (model.get(f, []) if app else []) + [rec]
            for g, want in model.items():
                got = [r.numpy() for r in tf.data.TFRecordDataset([os.path.join(d, "r%d" % g)])]
                if got != want:
                    raise Violation("file %d holds records of sizes %s, expected %s (after writing %d bytes, "
                                    "append=%s)" % (g, [len(r) for r in got], [len(r) for r in want], size, app))
    return len(c["ops"]) >= 2


FAMILIES = [
    Family("round_trip", case, run, 280, shards=5, cost=2.0, budget=80, rule="every case: at least one batch read back"),
    Family("secrecy", secret_case, secret, 40, shards=2, cost=1.0, rule="every case"),
    Family("records", rec_case, rec_run, 160, shards=2, cost=1.0, rule="at least two writes"),
]
