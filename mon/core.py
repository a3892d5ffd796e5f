"""Runner: turns a property's case families into executions of the real code, collects what the monitors
observed, and gives the verdict.

exit 0  held on everything observed
exit 1  violated; prints  VIOLATION property=<id> replay=<path>
exit 2  inconclusive / harness error (a deciding monitor was never reached, the code could not be imported, ...)
"""
import collections
import contextlib
import hashlib
import io
import json
import math
import multiprocessing as mp
import multiprocessing.connection
import os
import shutil
import signal
import sys
import time
import traceback
import zlib

import numpy as np

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("OPTICS3D_REPO", "/repo")
CASE_CPU_S = 60.0        # a case normally takes milliseconds of CPU time


class Violation(Exception):
    def __init__(self, msg, witness=None):
        super().__init__(msg)
        self.msg = msg
        self.witness = witness or {}


class Hang(Exception):
    pass


class Skip(Exception):
    """the case turned out to be borderline or outside the property's scope: no verdict from it"""


class Ctx:
    """one case: its private random generator and what was observed in it"""

    def __init__(self, prop, family, seed, idx, tier):
        self.prop, self.family, self.seed, self.idx, self.tier = prop, family, seed, idx, tier
        self.rng = np.random.default_rng([seed & 0x7fffffff, zlib.crc32((prop + "/" + family).encode()), idx])
        self.counters = collections.Counter()
        self.sig = []
        self.desc = None
        self.decided = 0

    # --- what was observed
    def ev(self, name, n=1):
        """n events of this kind were decided by the oracle"""
        self.counters[name] += n
        self.decided += n

    def note(self, name, n=1):
        self.counters["~" + name] += n

    def skip(self, name):
        self.counters["~skipped: " + name] += 1

    def seen(self, *what):
        """part of the observation that makes this execution distinct from others"""
        self.sig.append(what)

    def fail(self, msg, **witness):
        raise Violation(msg, witness)

    def check(self, ok, msg, **witness):
        if not ok:
            raise Violation(msg, witness)

    # --- randomness
    def u(self, a=0.0, b=1.0):
        return float(self.rng.uniform(a, b))

    def logu(self, a, b):
        return math.exp(float(self.rng.uniform(math.log(a), math.log(b))))

    def i(self, a, b):
        """integer in [a, b]"""
        return int(self.rng.integers(a, b + 1))

    def pick(self, seq):
        return seq[int(self.rng.integers(0, len(seq)))]

    def chance(self, p):
        return float(self.rng.uniform()) < p

    def normal(self):
        return float(self.rng.normal())


class Family:
    def __init__(self, name, fn, quick, thorough=None, only=None):
        self.name, self.fn, self.quick = name, fn, quick
        self.thorough = thorough if thorough is not None else quick * 15


class Prop:
    def __init__(self, pid, rule, families, required=(), assumptions=(), probes=None, level="exploration"):
        self.id, self.rule, self.families = pid, rule, families
        self.required, self.assumptions, self.probes, self.level = list(required), list(assumptions), probes, level


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return [jsonable(v) for v in x.tolist()]
    if isinstance(x, (np.floating, float)):
        x = float(x)
        return x if math.isfinite(x) else repr(x)
    if isinstance(x, (np.integer, int)) and not isinstance(x, bool):
        return int(x)
    if isinstance(x, (np.bool_, bool)):
        return bool(x)
    if x is None or isinstance(x, str):
        return x
    return repr(x)


# ------------------------------------------------------------------ executions

def _on_alarm(signum, frame):
    raise Hang()


def run_case(prop, fam, seed, idx, tier):
    """one execution; returns (ctx, violation or None)"""
    ctx = Ctx(prop.id, fam.name, seed, idx, tier)
    np.random.seed((seed * 1000003 + idx * 7919 + zlib.crc32(fam.name.encode())) % (2 ** 32))
    viol = None
    signal.signal(signal.SIGVTALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_S)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            fam.fn(ctx)
    except Skip as e:
        ctx.skip(str(e) or "case")
    except Violation as e:
        viol = {"message": e.msg, "witness": jsonable(e.witness)}
    except Hang:
        viol = {"message": "the code under test did not come back within %g s of CPU time (normally milliseconds)"
                           % CASE_CPU_S, "witness": {}}
    except (MemoryError, OSError):
        raise
    except Exception as e:          # the code raised on an input in scope, or returned something uninterpretable
        tb = traceback.format_exc()
        where = "the code under test raised" if (REPO + os.sep) in tb else "uninterpretable result:"
        viol = {"message": "%s %s: %s" % (where, type(e).__name__, e), "witness": {"traceback": tb[-3000:]}}
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    if viol:
        viol.update(family=fam.name, idx=idx, seed=seed, tier=tier, case=jsonable(ctx.desc))
    return ctx, viol


class LineCoverage:
    """which lines of the code under test the workload reached (evidence only)"""
    TOOL = 3

    def __init__(self):
        self.lines = set()
        self.prefix = REPO + os.sep

    def start(self):
        m = sys.monitoring
        m.use_tool_id(self.TOOL, "mon-coverage")

        def on_line(code, line):
            f = code.co_filename
            if f.startswith(self.prefix):
                self.lines.add((f[len(self.prefix):], line))
            return m.DISABLE
        m.register_callback(self.TOOL, m.events.LINE, on_line)
        m.set_events(self.TOOL, m.events.LINE)

    def stop(self):
        m = sys.monitoring
        m.set_events(self.TOOL, 0)
        m.free_tool_id(self.TOOL)


_STATE = {}


def _worker_init():
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    cov = LineCoverage()
    try:
        cov.start()
    except Exception:
        cov = None
    _STATE["cov"] = cov


def _work(job):
    fi, lo, hi = job
    prop, seed, tier = _STATE["prop"], _STATE["seed"], _STATE["tier"]
    fam = prop.families[fi]
    counters = collections.Counter()
    sigs, samples, viols = set(), [], []
    n = nontrivial = 0
    fp = collections.Counter()

    def on_fp(kind, flag):
        fp[kind] += 1
    with np.errstate(all="call", call=on_fp):
        for idx in range(lo, hi):
            ctx, viol = run_case(prop, fam, seed, idx, tier)
            n += 1
            counters.update(ctx.counters)
            if ctx.decided:
                nontrivial += 1
                sigs.add(hashlib.blake2b(repr((fam.name, ctx.sig, ctx.desc)).encode(), digest_size=8).digest())
                if len(samples) < 1 and ctx.desc is not None and idx < lo + 5:
                    samples.append({"family": fam.name, "idx": idx, "case": jsonable(ctx.desc),
                                    "observed": {k: v for k, v in ctx.counters.items()}})
            if viol:
                viols.append(viol)
                break
    cov = _STATE.get("cov")
    lines = set(cov.lines) if cov else set()
    return fi, n, nontrivial, counters, sigs, samples, viols, dict(fp), lines


def _serve(conn, others):
    for c in others:
        c.close()
    _worker_init()
    while True:
        try:
            job = conn.recv()
        except EOFError:
            return
        if job is None:
            return
        try:
            out = (True, _work(job))
        except Exception:
            out = (False, traceback.format_exc())
        conn.send(out)


def run_jobs(jobs, nproc):
    """the results of _work, as they come. Own workers rather than a Pool: a Pool that is stopped early, when a violation
    was found, can deadlock, and one whose worker was killed waits for ever."""
    ctx = mp.get_context("fork")
    jobs = collections.deque(jobs)
    workers = {}                            # connection -> [process, job in hand]
    lost = 0

    def start():
        here, there = ctx.Pipe()
        p = ctx.Process(target=_serve, args=(there, list(workers) + [here]), daemon=True)
        p.start()
        there.close()
        workers[here] = [p, None]
        return here

    def give(c):
        if jobs:
            workers[c][1] = jobs.popleft()
            with contextlib.suppress(ConnectionError):    # noticed below
                c.send(workers[c][1])
    try:
        for _ in range(min(nproc, len(jobs))):
            give(start())
        while any(w[1] is not None for w in workers.values()):
            for c in mp.connection.wait([c for c, w in workers.items() if w[1] is not None]):
                try:
                    ok, res = c.recv()
                except (EOFError, ConnectionError):       # ended from outside, e.g. for lack of memory
                    lost += 1
                    if lost > 3:
                        raise RuntimeError("worker processes keep being killed")
                    jobs.append(workers.pop(c)[1])
                    c.close()
                    give(start())
                    continue
                if not ok:
                    raise RuntimeError(res)
                workers[c][1] = None
                give(c)
                yield res
    finally:
        for c, (p, _) in workers.items():
            p.kill()
        for c, (p, _) in workers.items():
            p.join(10)


def known_findings():
    with open(os.path.join(ROOT, "known_findings.json")) as f:
        return json.load(f)["findings"]


def write_replay(prop, viol):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%s.json" % (prop.id, viol.get("family", "probe"), viol.get("idx", 0)))
    with open(path, "w") as f:
        json.dump(dict(viol, property=prop.id), f, indent=1)
    return path


def report(prop, viol):
    path = write_replay(prop, viol)
    print("VIOLATION property=%s replay=%s" % (prop.id, path))
    print("  " + viol["message"])
    print("  family=%s idx=%s seed=%s" % (viol.get("family"), viol.get("idx"), viol.get("seed")))
    w = json.dumps(viol.get("witness", {}))
    print("  witness: " + (w if len(w) < 4000 else w[:4000] + " ..."))


def _watchdog(signum, frame):
    """wall-clock limit of the whole check: no verdict (never a violation)"""
    print("INCONCLUSIVE: the check did not finish within its wall-clock limit", flush=True)
    for p in mp.active_children():
        p.kill()
    if os.environ.get("MON_SCRATCH"):
        shutil.rmtree(os.environ["MON_SCRATCH"], ignore_errors=True)
    os._exit(2)


def main(prop, argv):
    t0 = time.time()
    signal.signal(signal.SIGALRM, _watchdog)
    signal.alarm(int(os.environ.get("MON_WALL_S", "860")))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    scale = float(os.environ.get("MON_SCALE", "1"))
    only = os.environ.get("MON_FAMILY")
    if "--replay" in argv:
        with open(argv[argv.index("--replay") + 1]) as f:
            r = json.load(f)
        if r.get("family") == "probe":
            bad = [v for v in prop.probes() if v["key"] == r.get("key")]
            for v in bad:
                report(prop, v)
            return 1 if bad else 0
        fam = [f for f in prop.families if f.name == r["family"]][0]
        ctx, viol = run_case(prop, fam, r["seed"], r["idx"], r["tier"])
        print("observed:", dict(ctx.counters))
        if viol:
            report(prop, viol)
            return 1
        print("no violation on replay")
        return 0

    _STATE.update(prop=prop, seed=seed, tier=tier)
    jobs = []
    nproc = max(1, min(os.cpu_count() or 1, 8))
    for fi, fam in enumerate(prop.families):
        if only and fam.name != only:
            continue
        total = max(1, int((fam.quick if tier == "quick" else fam.thorough) * scale))
        size = max(1, min(500, total // (nproc * 3) or 1))
        jobs += [(fi, lo, min(lo + size, total)) for lo in range(0, total, size)]
    # interleave the families so that an early stop has seen all of them
    jobs.sort(key=lambda j: (j[1], j[0]))

    counters = collections.Counter()
    per_family = collections.Counter()
    sigs, samples, viols, lines = set(), [], [], set()
    fp = collections.Counter()
    n = nontrivial = 0
    with contextlib.closing(run_jobs(jobs, nproc)) as results:
        for fi, k, nt, c, s, sm, v, f, ln in results:
            n += k
            nontrivial += nt
            counters.update(c)
            per_family[prop.families[fi].name] += k
            sigs |= s
            lines |= ln
            fp.update(f)
            if sum(1 for x in samples if sm and x["family"] == sm[0]["family"]) < 1:
                samples += sm
            viols += v
            if viols:
                break

    # fixed probes: the inputs of the known findings, and of everything close to them
    known = {}
    listed = {k["key"]: k for k in known_findings() if k["property"] == prop.id}
    if prop.probes and not viols and not only:
        with contextlib.redirect_stdout(io.StringIO()):
            res = prop.probes()
        counters["known-finding probes run"] += 1
        for v in res:
            if v["key"] in listed:
                known[v["key"]] = v
            else:
                viols.append(dict(v, family="probe", idx=v["key"], seed=seed, tier=tier))
    missing = [r for r in prop.required if counters[r] == 0] if not only else []

    wall = time.time() - t0
    by_file = collections.Counter(f for f, _ in lines)
    events = {k: v for k, v in sorted(counters.items()) if not k.startswith("~")}
    other = {k[1:]: v for k, v in sorted(counters.items()) if k.startswith("~")}
    ev = {
        "property": prop.id, "tier": tier, "seed": seed, "level": prop.level,
        "coverage": {
            "evaluations": n, "distinct_nontrivial": len(sigs), "rule": prop.rule, "samples": samples[:8],
            "executions_with_a_decided_event": nontrivial,
            "executions_by_family": dict(per_family),
            "events_decided_by_the_oracle": events,
            "not_decided_and_other_counts": other,
            "floating_point_events_seen": dict(fp),
            "repo_lines_reached": dict(by_file),
            "known_findings_reproduced": sorted(known),
            "exhaustive": False,
        },
        "assumptions": prop.assumptions, "wall_s": round(wall, 2), "violations": len(viols),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop.id + ".json"), "w") as f:
        json.dump(jsonable(ev), f, indent=1)

    for key in sorted(known):
        print("KNOWN-FINDING: property=%s %s: %s" % (prop.id, key, listed[key]["what"]))
    print("%s [%s, seed %d]: %d executions, %d distinct non-trivial, %d events decided, %.1f s"
          % (prop.id, tier, seed, n, len(sigs), sum(events.values()), wall))
    if viols:
        for v in viols[:3]:
            report(prop, v)
        return 1
    if missing or (not events):
        print("INCONCLUSIVE property=%s: never observed: %s" % (prop.id, ", ".join(missing) or "anything"))
        return 2
    return 0
