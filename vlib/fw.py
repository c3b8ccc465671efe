"""Small property-based-testing framework on top of Hypothesis.

A check module (checks/pNN.py) exports PROPERTY, RULE, ASSUMPTIONS and parts(tier) -> [Part].
A Part draws JSON-able cases from a strategy and runs each against the real code and an oracle.
Every random choice is drawn by Hypothesis seeded from VERIF_SEED; bulk data (images, long schedules) is expanded
deterministically from drawn integers.
"""
import hashlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback
import warnings

warnings.simplefilter("ignore")
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)

from hypothesis import given, settings, seed as hseed, HealthCheck, Phase   # noqa


class Violation(Exception):
    """The property does not hold on this case."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


def finding(key, msg):
    """a deviation that may be a listed finding: noted and passed over then, raised otherwise"""
    if key not in KNOWN:
        raise Violation(msg, key=key)
    NOTED[key] = msg


class Stop(BaseException):
    pass


class Part:
    """name; strategy: hypothesis strategy of JSON-able cases (or list of cases = enumerated);
    run(case) -> labels (set/list of strings; empty/None = trivial) or raises Violation;
    n: number of cases for this tier; prepare(): run once in the parent."""

    def __init__(self, name, strategy, run, n, shards=None, weight=1.0):
        self.name = name
        self.strategy = strategy
        self.run = run
        self.n = n
        self.shards = shards
        self.weight = weight


def digest(case):
    return hashlib.blake2b(json.dumps(case, sort_keys=True).encode(), digest_size=8).hexdigest()


def shorten(x, n=160):
    """a readable form of a case for the evidence file"""
    if isinstance(x, dict):
        return {k: shorten(v, n) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        if len(x) > 24:
            return [shorten(v, n) for v in x[:20]] + ["... %d more" % (len(x) - 20)]
        return [shorten(v, n) for v in x]
    if isinstance(x, str) and len(x) > n:
        return x[:n] + "...(%d)" % len(x)
    return x


def part_seed(seed, name, shard):
    return int.from_bytes(hashlib.blake2b(("%s/%s/%s" % (seed, name, shard)).encode(), digest_size=7).digest(), "big")


def run_shard(part, shard, nshards, seed, deadline, shrink_s):
    """-> dict with the counts and the smallest failing case"""
    r = {"part": part.name, "ev": 0, "nt": set(), "labels": {}, "samples": [], "fail": {}, "known": {},
         "timeout": False, "error": None, "invalid": 0}
    st = {"t_fail": None, "after": 0}

    def one(case, enumerated=False):
        case = json.loads(json.dumps(case))
        if time.time() > deadline:
            r["timeout"] = True
            raise Stop
        if st["t_fail"] is not None:
            st["after"] += 1
            if time.time() - st["t_fail"] > shrink_s or st["after"] > 1500:
                raise Stop
        try:
            labels = part.run(case)
        except Violation as v:
            if v.key is not None and v.key in KNOWN:
                r["known"][v.key] = str(v)
                r["ev"] += 1
                return
            size = len(json.dumps(case))
            if st["t_fail"] is None:
                st["t_fail"] = time.time()
            f = r["fail"]
            if not f or size <= f["size"]:
                r["fail"] = {"case": case, "msg": str(v), "size": size, "part": part.name}
            raise
        if st["t_fail"] is None:
            r["ev"] += 1
            if labels is not None and len(labels):
                d = digest(case)
                if d not in r["nt"]:
                    r["nt"].add(d)
                    if len(r["samples"]) < 2:
                        r["samples"].append({"part": part.name, "case": shorten(case), "labels": sorted(labels)})
            for x in labels or ["trivial"]:
                r["labels"][x] = r["labels"].get(x, 0) + 1

    try:
        if isinstance(part.strategy, list):
            for i, case in enumerate(part.strategy):
                if i % nshards == shard:
                    try:
                        one(case)
                    except Violation:
                        break
        else:
            n = part.n // nshards + (1 if shard < part.n % nshards else 0)
            if n:
                @hseed(part_seed(seed, part.name, shard))
                @settings(max_examples=n, database=None, deadline=None, derandomize=False, print_blob=False,
                          report_multiple_bugs=False, phases=(Phase.generate, Phase.shrink),
                          suppress_health_check=list(HealthCheck))
                @given(part.strategy)
                def t(case):
                    one(case)
                t()
    except Stop:
        pass
    except Violation:
        pass
    except BaseException as e:                                      # harness error
        if not r["fail"] or not isinstance(e, Exception):
            r["error"] = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:]
        elif type(e).__name__ not in ("Flaky", "FlakyFailure", "FlakyReplay", "StopTest"):
            r["error"] = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:]
    r["known"].update(NOTED)
    return r


KNOWN = {}                                                          # listed findings of the property
NOTED = {}                                                          # those met by this process


def load_known(prop):
    KNOWN.clear()
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding:"):
                f = dict(x.split("=", 1) for x in l[8:].split(None, 2)[:2])
                if f["property"] == prop:
                    KNOWN[f["key"]] = l[8:].split(None, 2)[2]


def _child(parts, jobs, i, nproc, seed, deadline, shrink_s, conn):
    try:
        for k, (pi, sh, nsh) in enumerate(jobs):
            if k % nproc != i:
                continue
            conn.send(run_shard(parts[pi], sh, nsh, seed, deadline, shrink_s))
        conn.send(None)
    except BaseException:
        conn.send({"error": traceback.format_exc()[-4000:]})
    conn.close()
    os._exit(0)


def execute(parts, seed, budget, nproc=8, shrink_s=15):
    """Runs all shards in forked workers that pull jobs from a queue."""
    jobs = []
    for pi, p in enumerate(parts):
        n = len(p.strategy) if isinstance(p.strategy, list) else p.n
        if n == 0:
            continue
        ns = p.shards or max(1, min(nproc, n // 4))
        for s in range(ns):
            jobs.append((p.weight / ns, pi, s, ns))
    jobs.sort(key=lambda x: -x[0])
    ctx = mp.get_context("fork")
    deadline = time.time() + budget
    q = ctx.SimpleQueue()
    for w, pi, s, ns in jobs:
        q.put((pi, s, ns))
    for _ in range(nproc):
        q.put(None)
    out = ctx.SimpleQueue()

    def work():
        # a worker ends itself when its parent is gone
        import ctypes
        ctypes.CDLL(None).prctl(1, 9)
        while True:
            j = q.get()
            if j is None:
                break
            try:
                out.put(run_shard(parts[j[0]], j[1], j[2], seed, deadline, shrink_s))
            except BaseException:
                out.put({"error": traceback.format_exc()[-4000:], "part": parts[j[0]].name})
        out.put(None)
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(0)

    ps = [ctx.Process(target=work) for _ in range(nproc)]
    for p in ps:
        p.start()
    res = []
    done = 0
    import select
    while done < nproc:
        # a worker that died (out of memory, crash of the code under test) never reports
        rd, _, _ = select.select([out._reader], [], [], 1.0)
        if rd:
            x = out.get()
            if x is None:
                done += 1
            else:
                res.append(x)
        else:
            dead = [p for p in ps if not p.is_alive()]
            if len(dead) > done:
                rd, _, _ = select.select([out._reader], [], [], 0.5)
                if not rd:
                    res.append({"error": "worker died, exit codes %r" % [p.exitcode for p in dead], "part": "?"})
                    break
    for p in ps:
        if p.is_alive():
            p.kill()
        p.join()
    return res
