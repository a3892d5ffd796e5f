"""C34 a run that is broken off (Ctrl-C, an error in an optic) harms nothing but that run."""
import numpy as np

from ..core import Prop, Family, Skip
from ..common import *
from .. import sut, scenes, elements as E, v3, inject
from ..v3 import *
from .c17 import snap, same, result, equal, hits
from .c36 import process_state


def aftermath(ctx, before, what):
    now = process_state()
    for k in before:
        ctx.check(now[k] == before[k], "a run broken off by %s left %s changed" % (what, k), before=str(before[k])[:200], after=str(now[k])[:200])
    ctx.ev("process settings compared after a break")


def same_list(ctx, lst, was, what):
    ctx.check(len(lst) == len(was) and all(a is b for a, b in zip(lst, was)), "a run broken off by %s left the list of optics changed" % what,
              was=[type(o).__name__ for o in was], now=[type(o).__name__ for o in lst])


def prefix_of(ctx, ray, full, what):
    """the path of a broken-off run is the beginning of the unbroken one"""
    V = np.array(ray.get_plot_repr(), dtype=float)
    F = full[0]
    ctx.check(V.ndim == 2 and 1 <= len(V) <= len(F) and np.array_equal(V, F[:len(V)]), "the path of a run broken off by %s is not the "
              "beginning of the whole one" % what, got=V, whole=F)
    p = np.array(ray.position, dtype=float)
    near = [F[k] for k in (len(V) - 2, len(V) - 1, len(V)) if 0 <= k < len(F)]
    ctx.check(any(np.array_equal(p, q) for q in near), "a broken-off run left the ray at a place it never went through", position=p, path=V, whole=F)
    d = np.array(ray.direction, dtype=float)
    ctx.check(np.all(np.isfinite(d)), "a broken-off run left the ray without a direction", direction=d)
    return len(V)


def onwards(ctx, ray, L, what):
    """a ray whose run was broken off can be run on: through empty space, by just the distance asked for"""
    p, d, n, x = np.array(ray.position, dtype=float), np.array(ray.direction, dtype=float), len(ray.get_plot_repr()), L * ctx.logu(1e-3, 3)
    blocked = bool(ray.blocked)
    ray.run(x, optic_list=[])
    q = p if blocked else p + x * d
    ctx.check(bool(ray.blocked) == blocked and float(np.linalg.norm(np.array(ray.position, dtype=float) - q)) <= 1e-9 * (1 + L) and
              len(ray.get_plot_repr()) == n + (not blocked),
              "a ray whose run was broken off by %s does not fly on by the distance asked for" % what, start=p, direction=d, asked=x, expected=q, end=ray.position)
    ctx.ev("broken-off rays run on")


def setup(ctx):
    orders = (0, 1, -1)
    sc, shot = scenes.make_scene(ctx, scenes.ALL, orders=orders, end=ctx.pick([None, "detector", "detector"]), n_hits=ctx.i(1, 5), decoys=ctx.i(0, 2))
    shots = [shot] + scenes.extra_shots(ctx, sc, shot, ctx.i(1, 3))
    md = scenes.budget(ctx, sc.L)
    ctx.desc = {"scene": [e.desc() for e in sc.els], "rays": [s.desc() for s in shots]}
    alone, rows = [], []
    for s in shots:
        own = sc.build(sut)
        r = s.build()
        r.run(md, optic_list=own, max_interactions=30)
        alone.append(result(r))
        rows.append([hits(o) for o in own])
    return sc, shots, md, alone, rows


def ledgers(ctx, optics, ran, broken, rows, what):
    """detectors hold exactly what completed rays left, plus at most the whole row of the broken-off one"""
    for k, o in enumerate(optics):
        if not hasattr(o, "hit_data"):
            continue
        got = hits(o)
        want = []
        for kind, i in ran:
            mine = rows[i][k]
            if kind == "run":
                want.append((mine, False))
            elif mine:
                want.append((mine, True))
        # a broken-off ray's row may or may not be there
        def match(g, w):
            if not w:
                return not g
            (m, optional), rest = w[0], w[1:]
            if g[:len(m)] == m and match(g[len(m):], rest):
                return True
            return optional and match(g, rest)
        ctx.check(match(got, want), "after a run was broken off by %s a detector's record is not that of the other rays (plus at most the broken "
                  "one's own row)" % what, got=got, expected=want)
        ctx.ev("detector records after a break", 1 if got else 0)


def anywhere(ctx):
    """an exception thrown into the middle of a run, at any bytecode of the library"""
    sc, shots, md, alone, rows = setup(ctx)
    optics = sc.build(sut)
    snaps = [snap(o) for o in optics]
    # how long is the run?
    i = ctx.i(0, len(shots) - 1)
    with inject.counting() as c:
        shots[i].build().run(md, optic_list=sc.build(sut), max_interactions=30)
    ran = []
    whole, state = list(optics), process_state()
    others = list(range(len(shots)))
    first = ctx.i(0, len(shots) - 1)
    r = shots[first].build()
    r.run(md, optic_list=optics, max_interactions=30)
    ran.append(("run", first))
    for _ in range(ctx.i(1, 3)):
        k = 1 + int(ctx.rng.integers(0, max(1, c.n)))
        victim = shots[i].build()
        f = inject.fault_at(k)
        with f:
            victim.run(md, optic_list=optics, max_interactions=30)
        if f.fired is None:
            ctx.check(equal(result(victim), alone[i]), "a ray goes another way than alone")
            ran.append(("run", i))
            continue
        ran.append(("broken", i))
        same_list(ctx, optics, whole, "an exception")
        aftermath(ctx, state, "an exception")
        n = prefix_of(ctx, victim, alone[i], "an exception in %s" % (f.fired[0],))
        ctx.ev("runs broken off after %s" % ("no step" if n == 1 else "some steps" if n < len(alone[i][0]) else "the last step"))
        ctx.counters["broken off in " + f.fired[0]] += 1
        onwards(ctx, victim, sc.L, "an exception")
        ctx.seen(f.fired, n)
    for s, j in zip(shots, others):
        r = s.build()
        r.run(md, optic_list=optics, max_interactions=30)
        ran.append(("run", j))
        ctx.check(equal(result(r), alone[j]), "after another run was broken off a ray goes another way", ray=s.desc(), alone=alone[j][0],
                  now=r.get_plot_repr())
        ctx.ev("rays traced after a break")
    for o, s in zip(optics, snaps):
        ctx.check(same(snap(o), s), "a broken-off run changed an optic", optic=type(o).__name__, was=s, now=snap(o))
    ledgers(ctx, optics, ran, i, rows, "an exception")


def failing_optic(ctx):
    """an optic of the user's that raises when it is met"""
    sc, shots, md, alone, rows = setup(ctx)
    i = ctx.i(0, len(shots) - 1)
    V = alone[i][0]
    if len(V) < 2:
        ctx.skip("nothing met")
        return
    hop = ctx.i(1, len(V) - 1)
    a, b = V[hop - 1], V[hop]
    seg = float(np.linalg.norm(b - a))
    if seg < 1e-3:
        ctx.skip("too short a step")
        return
    Q = a + ctx.u(0.2, 0.8) * (b - a)
    dirn = (b - a) / seg
    stage = ctx.pick(["asked", "met"])

    class Bomb(sut.Optic):
        def __init__(self):
            self.position = Q
            self.normal = dirn
            self.shape = "bomb"

        def test_intersect(self, ray):
            rel = np.dot(Q - np.asarray(ray.position, dtype=float), ray.direction)
            off = np.linalg.norm(np.asarray(ray.position, dtype=float) + rel * ray.direction - Q)
            if off < 1e-6 * seg and 1e-3 * seg < rel <= seg * 1.01:
                if stage == "asked":
                    raise ZeroDivisionError("the user's optic failed")
                return True, np.asarray(ray.position, dtype=float) + rel * ray.direction, -dirn, None
            return False, None, None, None

        def do_intersect(self, ray, *a, **k):
            raise ZeroDivisionError("the user's optic failed")
    optics = sc.build(sut)
    snaps = [snap(o) for o in optics]
    at = ctx.i(0, len(optics))
    mined = optics[:at] + [Bomb()] + optics[at:]
    victim = shots[i].build()
    whole, state = list(mined), process_state()
    raised = False
    try:
        victim.run(md, optic_list=mined, max_interactions=30)
    except ZeroDivisionError:
        raised = True
    same_list(ctx, mined, whole, "an error in an optic")
    aftermath(ctx, state, "an error in an optic")
    ctx.check(raised, "an error in an optic was swallowed", stage=stage, path=victim.get_plot_repr(), expected=V, bomb=Q)
    W = np.array(victim.get_plot_repr(), dtype=float)
    n = len(W)
    tail = n and dist(v3.tup(W[-1]), v3.tup(Q)) < 2e-6 * seg + 1e-9 * (1 + norm(v3.tup(Q)))     # a path that retraces itself may meet it a little off
    ctx.check(n and np.array_equal(W[:n - 1 if tail else n], V[:n - 1 if tail else n]) and (n - 1 if tail else n) <= hop, "the path of a run broken off by a failing "
              "optic is not the beginning of the whole one", got=W, whole=V)
    ran = [("broken", i)]
    for j, s in enumerate(shots):
        r = s.build()
        r.run(md, optic_list=optics, max_interactions=30)
        ran.append(("run", j))
        ctx.check(equal(result(r), alone[j]), "after an optic failed another ray goes another way", ray=s.desc(), alone=alone[j][0], now=r.get_plot_repr())
    for o, s in zip(optics, snaps):
        ctx.check(same(snap(o), s), "a failed run changed an optic", optic=type(o).__name__, was=s, now=snap(o))
    ledgers(ctx, optics, ran, i, rows, "an error in an optic")
    ctx.ev("failing optics: " + stage)
    ctx.seen(hop, n, stage)


def making(ctx):
    """the making of an optic broken off anywhere: the next one made is as good as ever, and nothing else has changed"""
    sc, shots, md, alone, rows = setup(ctx)
    optics = sc.build(sut)
    k_el = ctx.i(0, len(sc.els) - 1)
    with inject.counting() as c:
        sc.els[k_el].build(sut)
    for _ in range(3):
        f = inject.fault_at(1 + int(ctx.rng.integers(0, max(1, c.n))))
        with f:
            sc.els[k_el].build(sut)
        if f.fired:
            ctx.ev("optics whose making was broken off")
            ctx.seen(f.fired, sc.els[k_el].kind)
    if ctx.chance(0.5):
        optics = sc.build(sut)
    for j, s in enumerate(shots):
        r = s.build()
        r.run(md, optic_list=optics, max_interactions=30)
        ctx.check(equal(result(r), alone[j]), "after the making of an optic was broken off a ray goes another way", ray=s.desc(), alone=alone[j][0],
                  now=r.get_plot_repr())


PROP = Prop(
    "C34",
    "runs through random scenes into which an exception is thrown at a randomly chosen bytecode of the library (uniform over the run; the "
    "interpreter's instrumentation raises it, as Ctrl-C would), user's optics that raise when asked or when met, and constructors broken "
    "off; afterwards every other ray must be traced bit by bit as alone, optics unchanged, detectors' records whole, the broken path a "
    "beginning of the whole one; distinct executions are distinct places of the fault and depths of the run",
    [Family("anywhere", anywhere, 4000), Family("failing-optic", failing_optic, 2000), Family("making", making, 1200)],
    required=["rays traced after a break", "runs broken off after no step", "runs broken off after some steps", "runs broken off after the last step", "broken-off rays run on",
              "detector records after a break", "failing optics: asked", "failing optics: met", "optics whose making was broken off"],
    assumptions=["the broken-off ray itself may be between two states of one step"])
