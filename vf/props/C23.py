"""Queues, serving and data owners deliver shared values in order, once, unchanged."""
import itertools
import threading

import numpy as np
import tensorflow as tf
from hypothesis import strategies as st

from .. import env, gen, prot as P
from ..core import Family, Violation, count
from ..env import tfe
from ..prot import recon2
from tf_encrypted.player import DataOwner

UID = itertools.count()
CFGS = ["fixed64", "fixed64", "fixed64_ni"]


def name():
    import os

    return "vf%d_%d" % (os.getpid(), next(UID))


def values(shape, seed, lim=900.0):
    rng = np.random.Generator(np.random.PCG64(seed))
    k = seed % 3
    v = rng.uniform(-lim, lim, size=shape)
    if k == 0:
        v = np.round(v)
    elif k == 1:
        v = v / 4096.0
    return v


def make(p, shape, how, seed):
    """A private value to enqueue."""
    v = values(shape, seed)
    if how == "input":
        return tfe.define_private_input("input-provider", lambda: tf.constant(v))
    x = private(p, v, how)
    if how == "sum":
        return x + x
    if how == "prod":
        return x * private(p, values(shape, seed + 1, 1.0), "tensor")
    if how == "neg":
        return x.negative()
    if how == "ring":
        r = gen.wrap(gen.int_array({"shape": list(shape), "k": "uniform", "s": seed}, 64), 64)
        t = p.define_private_variable(np.asarray(r, dtype=np.int64), apply_scaling=False)
        t.is_scaled = True
        return t
    return x


def private(p, v, how="var"):
    if how == "tensor":
        return tfe.define_private_input("input-provider", lambda: tf.constant(v))
    return tfe.define_private_variable(np.array(v))


def shares_of(x):
    return [np.array(s.value) for s in x.unwrapped]


# ------------------------------------------------------------------------- histories
OPS = ["enq", "enq", "deq", "size", "enq", "deq", "alias", "move"]


@st.composite
def hcase(draw):
    nq = draw(st.integers(1, 3))
    qs = [{"cap": draw(st.integers(1, 5)), "shape": draw(gen.shapes(0, 3, 3)),
           "named": draw(st.booleans()), "lst": draw(st.booleans())} for _ in range(nq)]
    if nq > 1 and draw(st.booleans()):
        for q in qs[1:]:
            q["shape"] = qs[0]["shape"]
    ops = draw(st.lists(st.tuples(st.sampled_from(OPS), st.integers(0, 7), st.integers(0, 7),
                                  st.sampled_from(["var", "tensor", "sum", "prod", "neg", "ring",
                                                   "input", "same"]), gen.SEED),
                        min_size=3, max_size=16))
    return {"kind": draw(st.sampled_from(["pond", "pond", "securenn"])), "cfg": draw(st.sampled_from(CFGS)),
            "debug": draw(st.booleans()), "multi": draw(st.integers(0, 2)) == 0, "qs": qs,
            "ops": [list(o) for o in ops]}


def hrun(c):
    p = P.two_party(c["kind"], c["cfg"], debug=c["debug"], multi=c["multi"])

    def build(spec, nm):
        shape = list(spec["shape"]) if spec["lst"] else tuple(spec["shape"])
        return tfe.queue.FIFOQueue(capacity=spec["cap"], shape=shape, shared_name=nm)

    handles, model = [], []  # handle -> (queue, index of its list); lists of (shares, what)
    for i, spec in enumerate(c["qs"]):
        nm = name() if spec["named"] else None
        handles.append((build(spec, nm), i, nm))
        model.append([])
    last = {}
    enq = deq = 0
    for step, (op, a, b, how, seed) in enumerate(c["ops"]):
        q, m, nm = handles[a % len(handles)]
        spec = c["qs"][m]
        at = "step %d, queue %d" % (step, m)
        if op == "alias":
            if nm is not None and len(handles) < 6:
                handles.append((build(spec, nm), m, nm))
            continue
        if op == "size":
            got = int(q.size())
            if got != len(model[m]):
                raise Violation("%s: size %d with %d elements in it" % (at, got, len(model[m])))
            continue
        if op == "enq":
            if len(model[m]) >= spec["cap"]:
                continue
            x = last.get(m) if how == "same" else None
            if x is None:
                x = make(p, spec["shape"], "var" if how == "same" else how, seed)
            last[m] = x
            q.enqueue(x)
            model[m].append((shares_of(x), recon2(x, at), at))
            enq += 1
            continue
        if not model[m]:
            continue
        y = q.dequeue()
        check_deq(p, y, model[m].pop(0), spec["shape"], at)
        deq += 1
        if op == "move":
            q2, m2, _ = handles[b % len(handles)]
            if c["qs"][m2]["shape"] == spec["shape"] and len(model[m2]) < c["qs"][m2]["cap"]:
                q2.enqueue(y)
                model[m2].append((shares_of(y), recon2(y, at), at + " (moved)"))
                enq += 1
    for q, m, _ in handles:
        got = int(q.size())
        if got != len(model[m]):
            raise Violation("at the end: queue %d has size %d with %d elements in it" % (m, got, len(model[m])))
    for q, m, _ in handles:
        while model[m]:
            check_deq(p, q.dequeue(), model[m].pop(0), c["qs"][m]["shape"], "drain of queue %d" % m)
            deq += 1
    count("values through a queue", deq)
    return deq >= 2


def check_deq(p, y, want, shape, at):
    shares, ring, origin = want
    what = "%s: value enqueued at %s" % (at, origin)
    if list(y.shape) != list(shape):
        raise Violation("%s comes out with shape %s instead of %s" % (what, list(y.shape), list(shape)))
    if not y.is_scaled:
        raise Violation("%s comes out unscaled" % what)
    got = recon2(y, what)
    if not gen.same(got, ring):
        raise Violation("%s comes out as another value: %s" % (what, gen.first_diff(got, ring)))
    for i, (g, w) in enumerate(zip(shares_of(y), shares)):
        if g.dtype != w.dtype or not np.array_equal(g, w):
            raise Violation("%s: share %d differs" % (what, i))


# ------------------------------------------------------------- queue programs in a trace
@st.composite
def tcase(draw):
    return {"kind": draw(st.sampled_from(["pond", "securenn"])), "cfg": draw(st.sampled_from(CFGS)),
            "debug": draw(st.booleans()), "multi": draw(st.booleans()),
            "shape": draw(gen.shapes(0, 2, 3)),
            "body": [list(o) for o in draw(st.lists(st.tuples(
                st.sampled_from(["a2b", "new", "a2a", "b2a", "b2b", "drop", "new"]),
                st.sampled_from(["id", "neg", "dbl", "add"])), min_size=1, max_size=5))],
            "start": draw(st.integers(2, 9)), "calls": draw(st.integers(1, 3)),
            "s": draw(gen.SEED)}


def trun(c):
    p = P.two_party(c["kind"], c["cfg"], debug=c["debug"], multi=c["multi"])
    q = {k: tfe.queue.FIFOQueue(capacity=40, shape=c["shape"], shared_name=n)
         for k, n in (("a", name()), ("b", None))}
    model = {"a": [], "b": []}
    mod = P.modulus(p)
    for i in range(c["start"]):
        k = "ab"[(c["s"] >> i) & 1]
        x = make(p, c["shape"], "var", c["s"] + i)
        q[k].enqueue(x)
        model[k].append(recon2(x, "x"))
    v = values(c["shape"], c["s"] + 77)
    w = private(p, v, "tensor")
    wv = recon2(w, "w")

    # simulate to keep only the steps that never block
    def sim(state):
        for op, f in c["body"]:
            if op == "new":
                state["a"].append(wv)
                continue
            s = op[0] if op != "drop" else "a"
            if not state[s]:
                return None
            e = state[s].pop(0)
            if op != "drop":
                state[op[2]].append({"id": e, "neg": -e, "dbl": e + e, "add": e + wv}[f] % mod)
        return state

    @tf.function
    def step():
        for op, f in c["body"]:
            if op == "new":
                q["a"].enqueue(w)
                continue
            x = q[op[0] if op != "drop" else "a"].dequeue()
            if op != "drop":
                y = {"id": lambda x: x, "neg": lambda x: x.negative(), "dbl": lambda x: x + x,
                     "add": lambda x: x + w}[f](x)
                q[op[2]].enqueue(y)

    done = 0
    for _ in range(c["calls"]):
        nxt = sim({k: list(v) for k, v in model.items()})
        if nxt is None:
            break
        step()
        model = nxt
        done += 1
    for k in "ab":
        got = int(q[k].size())
        if got != len(model[k]):
            raise Violation("after %d traced steps queue %s has size %d, expected %d" % (done, k, got, len(model[k])))
        for i, e in enumerate(model[k]):
            y = q[k].dequeue()
            g = recon2(y, "y")
            if not gen.same(g % mod, e % mod):
                raise Violation("after %d traced steps element %d of queue %s: %s" % (
                    done, i, k, gen.first_diff(g % mod, e % mod)))
    return done > 0


# ------------------------------------------------------------------------- serving
@st.composite
def scase(draw):
    return {"kind": draw(st.sampled_from(["pond", "pond", "securenn"])), "cfg": draw(st.sampled_from(CFGS)),
            "debug": draw(st.booleans()), "multi": draw(st.integers(0, 2)) == 0,
            "rows": draw(st.integers(1, 3)), "cols": draw(st.integers(1, 3)), "out": draw(st.integers(1, 3)),
            "fn": draw(st.sampled_from(["mul", "dense", "affine", "id", "stack"])),
            "clients": draw(st.integers(1, 3)), "incap": draw(st.integers(1, 4)), "outcap": draw(st.integers(1, 4)),
            "ops": [list(o) for o in draw(st.lists(st.tuples(
                st.sampled_from(["send", "send", "serve", "recv", "call"]), st.integers(0, 5), gen.SEED),
                min_size=3, max_size=12))],
            "thread": draw(st.booleans()), "s": draw(gen.SEED), "ro": draw(st.booleans())}


def srun(c):
    p = P.two_party(c["kind"], c["cfg"], debug=c["debug"], multi=c["multi"])
    ishape = [c["rows"], c["cols"]]
    oshape = [c["rows"], c["out"]] if c["fn"] == "dense" else \
        [2] + ishape if c["fn"] == "stack" else ishape
    wv = values([c["cols"], c["out"]], c["s"], 1.0)
    bv = values(ishape, c["s"] + 5, 10.0)
    w = private(p, wv)
    b = private(p, bv)
    fn, ref = {
        "mul": (lambda x: x * x, lambda x: x * x),
        "dense": (lambda x: tfe.matmul(x, w), lambda x: x @ wv),
        "affine": (lambda x: x * b + b, lambda x: x * bv + bv),
        "id": (lambda x: x, lambda x: x),
        "stack": (lambda x: tfe.stack([x, x + b]), lambda x: np.stack([x, x + bv])),
    }[c["fn"]]
    tol = 0.05
    args = dict(input_shape=ishape, output_shape=oshape, input_queue_capacity=c["incap"],
                input_queue_name=name(), output_queue_capacity=c["outcap"], output_queue_name=name())
    server = tfe.serving.QueueServer(computation_fn=fn, **args)
    clients = [tfe.serving.QueueClient(**args) for _ in range(c["clients"])]
    waiting, ready = [], []
    steps, served, answered = [], 0, 0

    def want(x, y, what):
        if list(np.shape(y)) != list(oshape):
            raise Violation("%s: answer of shape %s instead of %s" % (what, np.shape(y), oshape))
        d = np.max(np.abs(np.asarray(y) - ref(x)))
        if not d <= tol:
            raise Violation("%s: request %s answered with %s, expected %s" % (
                what, x.tolist(), np.asarray(y).tolist(), ref(x).tolist()))

    def batch(i, seed):
        x = np.clip(values(ishape, seed, 10.0), -10, 10)
        if c["ro"]:
            x.setflags(write=False)
        return x

    if c["thread"]:
        # the server works through all requests on its own thread
        sends = [(i, s) for op, i, s in c["ops"] if op in ("send", "call")]
        failed = []

        def work():
            try:
                server.run(num_steps=len(sends), step_fn=lambda: steps.append(1))
            except BaseException as e:  # reported below
                failed.append(e)
                server.input_queue.queue0.close(cancel_pending_enqueues=True)
                server.output_queue.queue1.close(cancel_pending_enqueues=True)
                server.output_queue.queue0.close(cancel_pending_enqueues=True)

        # trace before other threads use the library
        clients[0].send_input(batch(0, 1))
        server.run(num_steps=1)
        want(batch(0, 1), clients[0].receive_output(), "first request")
        t = threading.Thread(target=work)
        t.start()
        pend = []
        try:
            for i, s in sends:
                cl = clients[i % len(clients)]
                cl.send_input(batch(i, s))
                pend.append((batch(i, s), cl))
                if len(pend) >= min(c["incap"], c["outcap"]) or s & 1:
                    x, cl = pend.pop(0)
                    want(x, cl.receive_output(), "threaded request %d" % answered)
                    answered += 1
            while pend:
                x, cl = pend.pop(0)
                want(x, cl.receive_output(), "threaded request %d" % answered)
                answered += 1
        except tf.errors.OpError:
            if not failed:
                raise
        finally:
            if answered < len(sends):
                server.input_queue.queue0.close(cancel_pending_enqueues=True)
                server.input_queue.queue1.close(cancel_pending_enqueues=True)
                server.output_queue.queue0.close(cancel_pending_enqueues=True)
                server.output_queue.queue1.close(cancel_pending_enqueues=True)
            t.join(60)
        if failed:
            raise failed[0]
        if len(steps) != len(sends):
            raise Violation("step_fn ran %d times in %d steps" % (len(steps), len(sends)))
        count("requests answered", answered)
        return answered >= 2

    for k, (op, i, seed) in enumerate(c["ops"]):
        cl = clients[i % len(clients)]
        if op == "send" and len(waiting) < c["incap"]:
            x = batch(i, seed)
            cl.send_input(x)
            waiting.append(x)
        elif op == "serve":
            n = min(len(waiting), c["outcap"] - len(ready), 1 + seed % 3)
            before = len(steps)
            server.run(num_steps=n, step_fn=(lambda: steps.append(1)) if seed & 1 else None)
            if seed & 1 and len(steps) - before != n:
                raise Violation("step %d: step_fn ran %d times in %d steps" % (k, len(steps) - before, n))
            ready += waiting[:n]
            waiting = waiting[n:]
            served += n
        elif op == "recv" and ready:
            want(ready.pop(0), cl.receive_output(), "step %d" % k)
            answered += 1
        for q, m, nm in ((server.input_queue, waiting, "input"), (clients[0].output_queue, ready, "output")):
            got = int(q.size())
            if got != len(m):
                raise Violation("step %d (%s): %d values in the %s queue, expected %d" % (k, op, got, nm, len(m)))
    while waiting or ready:
        if ready:
            want(ready.pop(0), clients[-1].receive_output(), "drain")
            answered += 1
        else:
            server.run(num_steps=1)
            ready.append(waiting.pop(0))
    count("requests answered", answered)
    return answered >= 2


# ------------------------------------------------------------------------- data owners
@st.composite
def ocase(draw):
    return {"prot": draw(st.sampled_from(["pond", "securenn", "aby3", "aby3"])),
            "debug": draw(st.booleans()), "multi": draw(st.integers(0, 2)) == 0,
            "owners": draw(st.integers(1, 2)), "pair": draw(st.integers(0, 3)),
            "tuple": draw(st.booleans()), "n": draw(st.integers(1, 5)), "rows": draw(st.integers(1, 3)),
            "rest": draw(gen.shapes(0, 2, 3)), "classes": draw(st.integers(1, 3)),
            "byname": draw(st.booleans()), "take": draw(st.sampled_from(["next", "late", "list"])),
            "src": draw(st.sampled_from(["tf", "dataset"])), "s": draw(gen.SEED)}


def orun(c):
    if c["prot"] == "aby3":
        p = P.aby3("l", debug=c["debug"], multi=c["multi"])
    else:
        p = P.two_party(c["prot"], "fixed64", debug=c["debug"], multi=c["multi"])
    players = ["server0", "server1"]
    pair = c["pair"] > 0
    data, streams = [], []
    for o in range(c["owners"]):
        xs = [values([c["rows"]] + c["rest"], c["s"] + 100 * o + i, 500.0) for i in range(c["n"])]
        ys = [values([c["rows"], c["classes"]], c["s"] + 100 * o + 50 + i, 500.0) for i in range(c["n"])]
        data.append(list(zip(xs, ys)))

        def builder(d=data[o]):
            if c["src"] == "dataset":
                ds = [tf.data.Dataset.from_tensor_slices(np.stack([e[j] for e in d])) for j in range(2)]
                return iter(tf.data.Dataset.zip(tuple(ds)) if pair else ds[0])

            def it():
                for x, y in d:
                    t = [tf.constant(x), tf.constant(y)]
                    yield (tuple(t) if c["tuple"] else t) if pair else t[0]
            return it()

        who = players[o]
        own = DataOwner(who if c["byname"] else tfe.get_config().get_player(who), builder)
        if list(own.batch_shape) != list(xs[0].shape) or own.batch_size != c["rows"]:
            raise Violation("batch shape %s, size %s for batches of shape %s" % (own.batch_shape, own.batch_size, xs[0].shape))
        if pair and own.num_classes != c["classes"]:
            raise Violation("num_classes %s for labels of shape %s" % (own.num_classes, ys[0].shape))
        streams.append(own.provide_data())

    def look(e, o, i):
        parts = list(e) if pair else [e]
        if len(parts) != (2 if pair else 1):
            raise Violation("batch %d of owner %d has %d parts" % (i, o, len(parts)))
        for j, t in enumerate(parts):
            got = np.asarray(env.native(t.reveal().to_native()))
            want = data[o][i][j]
            if got.shape != want.shape or np.max(np.abs(got - want)) > 1e-3:
                raise Violation("batch %d of owner %d, part %d is %s instead of %s" % (
                    i, o, j, got.tolist(), want.tolist()))

    if c["take"] == "list":
        for o, st_ in enumerate(streams):
            got = list(st_)
            if len(got) != c["n"]:
                raise Violation("owner %d provides %d batches of %d" % (o, len(got), c["n"]))
            for i in reversed(range(c["n"])):
                look(got[i], o, i)
    else:
        held = []
        for i in range(c["n"]):
            for o, st_ in enumerate(streams):
                try:
                    e = next(st_)
                except StopIteration:
                    raise Violation("owner %d provides only %d batches of %d" % (o, i, c["n"]))
                held.append((e, o, i))
                if c["take"] == "next":
                    look(*held.pop())
        for h in held:
            look(*h)
        for o, st_ in enumerate(streams):
            if next(st_, None) is not None:
                raise Violation("owner %d provides more than %d batches" % (o, c["n"]))
    return c["n"] > 1


FAMILIES = [
    Family("history", hcase, hrun, 500, shards=3, cost=1, rule="at least two values went through a queue"),
    Family("traced", tcase, trun, 200, shards=2, cost=2, rule="at least one traced step ran"),
    Family("serving", scase, srun, 160, shards=3, cost=3, rule="at least two requests were answered"),
    Family("owner", ocase, orun, 300, shards=2, cost=1, rule="at least two batches"),
]
