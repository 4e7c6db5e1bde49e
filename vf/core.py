"""Harness core: families of generated cases, counting, shrinking, replay.

A property module (vf/props/<ID>.py) defines FAMILIES, a list of Family.  A family is
a hypothesis strategy producing JSON cases plus a check that runs one case against the
code in /repo and an explicit oracle.  check(case) raises Violation when the oracle
disagrees; an exception escaping from /repo's own frames on a generated (valid) case
is a violation as well; any other exception is an error of the harness.
"""
import hashlib
import json
import os
import sys
import time
import traceback

REPO = os.environ.get("VERIF_REPO", "/repo")


class Violation(Exception):
    """The property does not hold on this case.

    prob: the oracle is probabilistic here (the protocol documents a tiny failure
    probability), so the case is re-run with fresh randomness before it counts.
    """

    def __init__(self, msg, prob=False):
        super().__init__(msg)
        self.prob = prob


class HarnessError(Exception):
    pass


class Family:
    def __init__(
        self, name, strategy, check, quick, thorough=None, rule="", shards=1,
        budget=60, cost=1.0, confirm=20,
    ):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.n = {"quick": quick, "thorough": thorough or quick * 12}
        self.rule = rule
        self.shards = shards
        self.budget = budget  # seconds per shard, quick tier
        self.cost = cost  # relative cost estimate of a case
        self.confirm = confirm


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def subseed(*parts):
    h = hashlib.sha256(repr(parts).encode()).digest()
    return int.from_bytes(h[:6], "big")


def from_repo(exc):
    """Does any frame of the exception's traceback (or causes) lie in /repo?"""
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        tb = exc.__traceback__
        while tb is not None:
            if tb.tb_frame.f_code.co_filename.startswith(REPO + "/"):
                return True
            tb = tb.tb_next
        exc = exc.__cause__ or exc.__context__
    return False


def short_tb(exc, n=6):
    fr = traceback.extract_tb(exc.__traceback__)
    fr = [f for f in fr if f.filename.startswith((REPO + "/", "/verif"))] or list(fr)
    return " <- ".join(
        "%s:%d(%s)" % (os.path.basename(f.filename), f.lineno, f.name)
        for f in reversed(fr[-n:])
    )


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.nontrivial = set()
        self.samples = []
        self.counters = {}
        self.truncated = False
        self.prob_ignored = 0

    def dump(self):
        return {
            "evaluations": self.evaluations,
            "nontrivial": sorted(self.nontrivial),
            "samples": self.samples,
            "counters": self.counters,
            "truncated": self.truncated,
            "prob_ignored": self.prob_ignored,
        }


CURRENT = None  # Stats of the running family, for count()


def count(name, n=1):
    if CURRENT is not None:
        CURRENT.counters[name] = CURRENT.counters.get(name, 0) + int(n)


def run_one(fam, case, salt=0):
    """Runs one case; returns (nontrivial, None) or (None, Violation)."""
    import hypothesis

    from . import env

    env.begin_case(subseed(canon(case), salt))
    try:
        nt = fam.check(case)
        return (True if nt is None else bool(nt)), None
    except Violation as v:
        return None, v
    except (hypothesis.errors.UnsatisfiedAssumption, hypothesis.errors.StopTest):
        raise
    except Exception as e:  # pylint: disable=broad-except
        if from_repo(e):
            v = Violation(
                "unexpected %s: %s [%s]"
                % (type(e).__name__, str(e)[:400], short_tb(e))
            )
            return None, v
        raise HarnessError(
            "family %s case %s: %s\n%s"
            % (fam.name, canon(case)[:1500], e, traceback.format_exc())
        ) from e
    finally:
        env.end_case()


def run_confirmed(fam, case):
    nt, v = run_one(fam, case)
    if v is not None and v.prob:
        again = 0
        for i in range(fam.confirm):
            _, v2 = run_one(fam, case, salt=i + 1)
            if v2 is not None:
                again += 1
                break
        if not again:
            return True, None, True
    return nt, v, False


def run_family(fam, shard, tier, seed, deadline, cur_file):
    """Runs one shard of a family; returns (Stats, failure or None)."""
    global CURRENT
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    stats = Stats()
    CURRENT = stats
    fails = []
    state = {"first_fail": None}
    n = max(1, -(-fam.n[tier] // fam.shards))
    budget = fam.budget * (1 if tier == "quick" else 12)
    t_end = min(time.time() + budget, deadline)

    def body(case):
        now = time.time()
        if state["first_fail"] is not None:
            if now - state["first_fail"] > (45 if tier == "quick" else 90):
                return
        elif now > t_end and stats.evaluations >= 3:
            stats.truncated = True
            return
        with open(cur_file, "w") as f:
            f.write(canon({"family": fam.name, "case": case}))
        nt, v, ignored = run_confirmed(fam, case)
        stats.evaluations += 1
        if ignored:
            stats.prob_ignored += 1
        if v is not None:
            if state["first_fail"] is None:
                state["first_fail"] = time.time()
            fails.append((len(canon(case)), len(fails), case, str(v)))
            raise v
        if nt:
            stats.nontrivial.add(hashlib.sha256(
                (fam.name + canon(case)).encode()).hexdigest()[:16])
            if len(stats.samples) < 2 and stats.evaluations > 1:
                stats.samples.append({"family": fam.name, "case": case})

    strat = fam.strategy() if callable(fam.strategy) else fam.strategy
    test = given(strat)(body)
    test = settings(
        max_examples=n, database=None, deadline=None, derandomize=False,
        suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
        phases=[Phase.generate, Phase.shrink], print_blob=False,
    )(test)
    test = hypothesis.seed(subseed(seed, fam.name, shard))(test)
    try:
        test()
    except HarnessError:
        raise
    except BaseException as e:  # pylint: disable=broad-except
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        if not fails:
            if isinstance(e, hypothesis.errors.HypothesisException) or True:
                raise HarnessError(
                    "family %s: %s\n%s" % (fam.name, e, traceback.format_exc())
                ) from e
    CURRENT = None
    failure = None
    if fails:
        fails.sort(key=lambda t: (t[0], -t[1]))
        failure = {"family": fam.name, "case": fails[0][2], "message": fails[0][3]}
    return stats, failure


def log(*a):
    print(*a, file=sys.stderr, flush=True)
