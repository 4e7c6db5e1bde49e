"""Configurations: save/load round trip, the cluster description, look-ups."""
import json
import logging
import os
import shutil
import tempfile
from collections import OrderedDict

import numpy as np
import tensorflow as tf
from hypothesis import strategies as st

from .. import env, gen
from ..core import Family, Violation, count
from ..env import tfe
from tf_encrypted.config import LocalConfig, RemoteConfig
from tf_encrypted.player import Player
from tf_encrypted.protocol.pond import OnlineTripleSource

ROLES = ["server0", "server1", "server2", "crypto-producer", "input-provider", "master", "weights-provider",
         "alice", "bob", "Server0", "server", "server00", "0", "", " x ", "a.b", "é", "日本", "a\"b", "a\\b", "\n",
         "s,t", "\U0001f600", "null", "1e3", "server0\u200b"]


def names(min_size=0, max_size=6):
    one = st.one_of(st.sampled_from(ROLES), st.text(max_size=12))
    return st.lists(one, min_size=min_size, max_size=max_size, unique=True)


def hosts():
    addr = st.tuples(st.integers(0, 255), st.integers(0, 255), st.integers(1, 65535)).map(
        lambda t: "10.0.%d.%d:%d" % t)
    return st.one_of(addr, addr, st.sampled_from(["localhost:4440", "localhost:4441", "[::1]:4440", "my-host.example:1",
                                                  "127.0.0.1:0", "ü.example:9"]), st.text(max_size=20))


@st.composite
def rcase(draw):
    ns = draw(names())
    return {"players": [[n, draw(hosts())] for n in ns], "job": draw(st.sampled_from(["tfe", "tfe", "worker", "j0b"])),
            "debug": draw(st.booleans()), "query": draw(names(0, 4)), "pick": draw(st.lists(st.integers(0, 5), max_size=5)),
            "kind": draw(st.sampled_from(["ordered", "dict"])), "rounds": draw(st.integers(1, 3)),
            "stale": draw(st.integers(0, 400)), "fmt": draw(st.sampled_from(["saved", "indent", "raw"]))}


class Recorder:
    """Stands in for the network calls and records what they are given."""

    def __enter__(self):
        self.calls = []
        self.server, self.connect = tf.distribute.Server, tf.config.experimental_connect_to_host
        rec = self.calls

        class Server:
            def __init__(self, cluster, job_name=None, task_index=None, start=True, **kw):
                rec.append(("server", cluster, job_name, task_index, start))
                self.target = "grpc://stub"

        tf.distribute.Server = Server
        tf.config.experimental_connect_to_host = lambda remote_host=None, job_name="worker": rec.append(
            ("connect", list(remote_host), job_name))
        return self

    def __exit__(self, *a):
        tf.distribute.Server, tf.config.experimental_connect_to_host = self.server, self.connect


def expect_players(cfg, players, job, what):
    got = [(p.name, p.host, p.index, p.device_name) for p in cfg.players]
    want = [(n, h, i, "/job:%s/replica:0/task:%d/device:CPU:0" % (job, i)) for i, (n, h) in enumerate(players)]
    if got != want:
        raise Violation("%s: players %s, expected %s" % (what, got, want))
    if list(cfg.hostmap.items()) != [tuple(p) for p in players]:
        raise Violation("%s: hostmap %s" % (what, cfg.hostmap))
    if list(cfg.hosts) != [h for _, h in players]:
        raise Violation("%s: hosts %s" % (what, cfg.hosts))


def lookups(cfg, players, c, what, auto=False):
    ns = [n for n, _ in players]
    for i, n in enumerate(ns):
        p = cfg.get_player(n)
        if p is not cfg.players[i] or p.name != n:
            raise Violation("%s: get_player(%r) is %r" % (what, n, getattr(p, "name", p)))
        if cfg.get_player(p) is not p:
            raise Violation("%s: get_player(player) is not that player" % what)
    for q in c["query"]:
        if q not in ns and not auto:
            p = cfg.get_player(q)
            if p is not None:
                raise Violation("%s: unknown %r resolves to %r" % (what, q, p.name))
    sel = [ns[k % len(ns)] for k in c["pick"]] if ns else []
    ask = sel + [q for q in c["query"]]
    got = [p.name for p in cfg.get_players(list(ask))]
    want = [n for n in ns if n in ask]
    if got != want:
        raise Violation("%s: get_players(%r) gave %r, expected %r" % (what, ask, got, want))
    plain = [n for n in ask if "," not in n and n.strip() == n and n]
    got = [p.name for p in cfg.get_players(", ".join(plain))]
    want = [n for n in ns if n in plain] if plain else [n for n in ns if n == ""]
    if got != want:
        raise Violation("%s: get_players(%r) gave %r, expected %r" % (what, ", ".join(plain), got, want))
    stranger = Player("stranger", 0, "/device:CPU:0", None)
    try:
        r = cfg.get_player(stranger)
    except AssertionError:
        pass
    else:
        raise Violation("%s: a player of another configuration is accepted: %r" % (what, r))


def rrun(c):
    players = [tuple(p) for p in c["players"]]
    cls = OrderedDict if c["kind"] == "ordered" else dict
    cfg = RemoteConfig(cls(players), job_name=c["job"], debug_mode=c["debug"])
    if cfg.debug != c["debug"]:
        raise Violation("debug mode lost")
    expect_players(cfg, players, c["job"], "constructed")
    lookups(cfg, players, c, "constructed")
    d = tempfile.mkdtemp(prefix="vf_c24_")
    try:
        f = os.path.join(d, "config.json")
        job = c["job"]
        for r in range(c["rounds"]):
            if c["stale"]:  # an older, possibly longer file is replaced
                with open(f, "w") as h:
                    h.write("x" * c["stale"])
            cfg.save(f)
            with open(f) as h:
                text = h.read()
            doc = json.loads(text, object_pairs_hook=OrderedDict)
            if list(doc.items()) != players:
                raise Violation("saved file describes %s, expected %s" % (list(doc.items()), players))
            if c["fmt"] != "saved":  # the documented format, written by hand
                with open(f, "w") as h:
                    json.dump(doc, h, indent=4 if c["fmt"] == "indent" else None)
            cfg = RemoteConfig.load(f)
            job = "tfe"  # the host map does not carry the job name
            expect_players(cfg, players, job, "loaded, round %d" % r)
            lookups(cfg, players, c, "loaded")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    for cf, jb in ((cfg, "tfe"), (RemoteConfig(cls(players), job_name=c["job"]), c["job"])):
        with Recorder() as rec:
            for i, (n, h) in enumerate(players):
                cf.start_server(n, start=bool(i % 2))
                kind, cluster, j, task, start = rec.calls[-1]
                if j != jb or task != i or start != bool(i % 2):
                    raise Violation("server of %r started as %s task %s start=%s" % (n, j, task, start))
                cl = cluster.as_dict()
                if cl != ({jb: [x for _, x in players]} if players else {}):
                    raise Violation("cluster %s, players %s" % (cl, players))
            cf.connect_servers()
            if rec.calls[-1] != ("connect", [h for _, h in players], jb):
                raise Violation("connects to %s" % (rec.calls[-1],))
            try:
                before = len(rec.calls)
                cf.start_server("no such player %s" % c["query"])
            except AssertionError:
                pass
            if len(rec.calls) != before:
                raise Violation("a server was started for an unknown player")
    count("players", len(players))
    return len(players) >= 2


# -------------------------------------------------------------------- local configuration
@st.composite
def lcase(draw):
    return {"start": draw(names(0, 4)), "none": draw(st.booleans()), "auto": draw(st.booleans()),
            "job": draw(st.sampled_from(["localhost", "j"])), "debug": draw(st.booleans()),
            "ops": [list(o) for o in draw(st.lists(st.tuples(
                st.sampled_from(["get", "get", "add", "players", "debug"]), st.sampled_from(ROLES[:12])), max_size=10))],
            "query": draw(names(0, 3)), "pick": draw(st.lists(st.integers(0, 5), max_size=4))}


def lrun(c):
    start = [] if c["none"] else c["start"]
    cfg = LocalConfig(None if c["none"] else list(start), c["job"], c["auto"], c["debug"])
    model = list(start)
    objs = {p.name: p for p in cfg.players}
    dbg = c["debug"]
    for op, n in c["ops"]:
        if op == "get":
            p = cfg.get_player(n)
            if n in model or c["auto"]:
                if n not in model:
                    model.append(n)
                    objs[n] = p
                if p is not objs[n] or p.name != n:
                    raise Violation("get_player(%r) is %r" % (n, getattr(p, "name", None)))
            elif p is not None:
                raise Violation("unknown %r resolves to %r" % (n, p.name))
        elif op == "add":
            if n in model:
                continue
            objs[n] = cfg.add_player(n)
            model.append(n)
        elif op == "debug":
            dbg = not dbg
            cfg.set_debug_mode(dbg)
        got = [(p.name, p.index, p.device_name, p.host) for p in cfg.players]
        want = [(m, i, "/job:%s/replica:0/task:0/device:CPU:0" % c["job"], None) for i, m in enumerate(model)]
        if got != want:
            raise Violation("after %s %r: players %s, expected %s" % (op, n, got, want))
        if cfg.debug != dbg:
            raise Violation("debug mode %s, expected %s" % (cfg.debug, dbg))
    lookups(cfg, [(m, None) for m in model], c, "local", auto=c["auto"])
    return len(model) >= 2


# ---------------------------------------------------- protocols find the players they name
@st.composite
def pcase(draw):
    pool = ["server0", "server1", "server2", "crypto-producer", "a", "b", "c", "d"]
    order = draw(st.permutations(pool))
    args = draw(st.permutations(["server0", "server1", "server2", "a", "b", "c", "d"]))[:3]
    return {"order": list(order), "args": [a if draw(st.integers(0, 2)) else None for a in args],
            "drop": draw(st.booleans()), "remote": draw(st.booleans()), "how": draw(st.sampled_from(["name", "player"])),
            "proto": draw(st.sampled_from(["aby3", "pond", "securenn"]))}


def prun(c):
    # the replicated protocol starts working on its servers at once: local configurations only
    remote = c["remote"] and c["proto"] != "aby3"
    drop = c["drop"] and remote and c["args"][2] is None
    order = [n for n in c["order"] if not (drop and n == "server2")]
    if remote:
        cfg = RemoteConfig(OrderedDict((n, "10.0.0.%d:1" % i) for i, n in enumerate(order)))
    else:
        cfg = LocalConfig(list(order))
    defaults = ["server0", "server1", "crypto-producer" if drop else "server2"]
    want = [a or d for a, d in zip(c["args"], defaults)]
    if len(set(want)) != 3 or any(w not in order for w in want):
        return False
    tfe.set_config(cfg)
    args = [a if a is None or (c["how"] == "name" and c["proto"] != "securenn") else cfg.get_player(a) for a in c["args"]]
    if c["proto"] == "aby3":
        p = tfe.protocol.ABY3(*args)
        got = [s for s in p.servers]
    elif c["proto"] == "pond":
        p = tfe.protocol.Pond(args[0], args[1], None if args[2] is None else
                              OnlineTripleSource(args[2]))
        got = [p.server_0, p.server_1, p.triple_source.producer]
    else:
        p = tfe.protocol.SecureNN(args[0], args[1], args[2])
        got = [p.server_0, p.server_1, p.server_2]
    for g, w in zip(got, want):
        if g is not cfg.get_player(w):
            raise Violation("%s uses player %r where %r was named" % (c["proto"], g.name, w))
    if [q.name for q in cfg.players] != order:
        raise Violation("building a protocol changed the players: %s" % [q.name for q in cfg.players])
    return True


FAMILIES = [
    Family("remote", rcase, rrun, 1500, shards=3, cost=0.3, rule="at least two players"),
    Family("local", lcase, lrun, 800, shards=1, cost=0.2, rule="at least two players"),
    Family("protocols", pcase, prun, 500, shards=2, cost=0.5, rule="three distinct players"),
]
