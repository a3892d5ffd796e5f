"""C01 the recorded path: connected, straight, within its distance budget."""
import math

import numpy as np

from ..core import Prop, Family
from ..common import *
from .. import sut, scenes, elements as E, v3
from ..v3 import *

A = ("path",)


def nothing(ctx):
    """rays that have nothing to do: no optics, no distance, no interactions left, or already absorbed"""
    P = mul(scenes.rand_unit(ctx), ctx.logu(0.1, 1000))
    d_raw = scenes.raw(ctx, scenes.rand_unit(ctx))
    style = "float"
    if ctx.chance(0.4):
        P = tuple(float(ctx.i(-20, 20)) for _ in range(3))
        d_raw = ctx.pick(scenes.INT_NORMALS)
        style = "int"
    s = Shot(P, d_raw, 532, 0, style)
    ray = s.build()
    ctx.desc = {"ray": s.desc()}
    done = [P]
    d = s.d
    vast = ctx.chance(0.15)
    reach = norm(P)
    for _ in range(ctx.i(1, 6)):
        op = ctx.pick(["run", "run", "runint", "zero", "neg", "nointer", "fly"])
        x = ctx.logu(1e4, 1e12) if vast and ctx.chance(0.5) else ctx.logu(1e-6, 1e4)
        if op == "run":
            ray.run(x) if ctx.chance(0.5) else ray.run(max_distance=x, optic_list=[])
        elif op == "runint":
            x = ctx.i(1, 10 ** 9 if vast else 500)
            ray.run(x, optic_list=[])
        elif op == "zero":
            ray.run(ctx.pick([0, 0.0]), optic_list=[])
            x = None
        elif op == "neg":
            ray.run(-x, optic_list=[])
            x = None
        elif op == "nointer":
            ray.run(x, optic_list=[], max_interactions=0)
            x = None
        else:
            x = x if ctx.chance(0.7) else -x
            ray.fly(distance=x)
        if x is not None:
            done.append(madd(done[-1], x, d))
            reach = max(reach, norm(done[-1]))
        V = ray.get_plot_repr()
        ctx.check(len(V) == len(done), "%s: the path has %d points instead of %d" % (op, len(V), len(done)), path=V)
        for a, b in zip(V, done):
            ctx.check(dist(v3.tup(a), b) <= (1e-9 + 1e-12 * reach if vast else 1e-9 * (1 + norm(b))), "a free flight went wrong (%s)" % op, got=a, expected=b)
        ctx.check(dist(v3.tup(ray.position), done[-1]) <= 1e-9 * (1 + norm(done[-1])) + 1e-12 * reach, "position is not the end of the path")
        ctx.check(not ray.blocked, "a free flight absorbed the ray")
        ctx.check(dist(v3.tup(ray.direction), d) < 1e-12, "a free flight changed the direction")
        ctx.ev("free flights checked")
        ctx.seen(op)
    ctx.seen(quant(d), quant(P))
    try:
        with_none = sut.Ray(np.array(P), np.array(d_raw, dtype=float))
        with_none.fly()
        ctx.fail("flying no stated distance was accepted")
    except ValueError:
        pass


def forms(ctx):
    """budgets, limits and lists of optics given in any of the forms Python and numpy have for them, budgets without end included"""
    sc, shot = scenes.make_scene(ctx, scenes.ALL, orders=(0, 1, -1), end=ctx.pick(["detector", "detector", None]), n_hits=ctx.i(1, 5))
    md = math.ceil(scenes.budget(ctx, sc.L) if ctx.chance(0.7) else sc.L * ctx.u(0, 2))
    lim = ctx.pick([1, 2, 3, 30, 30])
    optics = sc.build(sut)

    def go(budget, lst, limit):
        r = shot.build()
        r.run(budget, optic_list=lst, max_interactions=limit)
        return r
    ctx.desc = {"scene": [e.desc() for e in sc.els], "ray": shot.desc(), "budget": md, "limit": lim}
    ref = go(float(md), optics, lim)
    P = np.array(ref.get_plot_repr(), dtype=float)
    ended = bool(ref.blocked) or len(P) - 1 == lim and float(np.sum(np.linalg.norm(np.diff(P, axis=0), axis=1))) < md * (1 - 1e-9)
    arr = np.empty(len(optics), dtype=object)
    arr[:] = optics
    ways = [("a whole-number budget", md, optics, lim), ("a budget out of a numpy array", np.array([float(md)])[0], optics, lim),
            ("a whole-number budget out of a numpy array", np.int64(md), optics, lim), ("a tuple of optics", float(md), tuple(optics), lim),
            ("an array of optics", float(md), arr, lim), ("a limit out of a numpy array", float(md), optics, np.int64(lim)),
            ("a limit written as a float", float(md), optics, float(lim))]
    if ended:
        ways += [("a budget without end", math.inf, optics, lim), ("a budget without end, from numpy", np.float64(np.inf), tuple(optics), lim)]
    for what, b, o, l in ways:
        if not ended and ctx.chance(0.5):
            continue
        r = go(b, o, l)
        Q = np.array(r.get_plot_repr(), dtype=float)
        ctx.check(Q.shape == P.shape and bool(np.all(np.abs(Q - P) <= 1e-9 * (1 + sc.L))) and bool(r.blocked) == bool(ref.blocked),
                  "with %s a ray goes another way" % what, path=Q, expected=P)
        ctx.ev("runs given %s" % what)
    ctx.seen(len(P), ended, quant(shot.d))


def absorbed(ctx):
    """an absorbed ray stays where it is, whatever runs follow"""
    sc, shot = scenes.make_scene(ctx, ["mirror", "ideal", "balllens"], end="detector", n_hits=ctx.i(1, 3))
    optics = sc.build(sut)
    ctx.desc = {"scene": [e.desc() for e in sc.els], "ray": shot.desc()}
    res, ray = run_monitored(ctx, sc.els, optics, shot, sc.L, scenes.budget(ctx, sc.L), max_int=30, aspects=A)
    if not ray.blocked:
        return
    V = np.array(ray.get_plot_repr())
    d = np.array(ray.direction)
    for _ in range(3):
        ray.run(ctx.pick([1, 10.0, sc.L]), optic_list=ctx.pick([optics, [], optics[::-1]]))
        ctx.check(ray.blocked and np.array_equal(ray.get_plot_repr(), V) and np.array_equal(ray.direction, d),
                  "an absorbed ray moved again", before=V, after=ray.get_plot_repr())
        ctx.ev("runs of absorbed rays checked")


def hair_left(ctx):
    """a budget that reaches a hair beyond an interaction is flown to its end, however thin the hair"""
    sc, shot = scenes.make_scene(ctx, scenes.ALL, orders=(0, 1, -1), end=None, n_hits=ctx.i(1, 4))
    optics = sc.build(sut)
    for s in [shot] + scenes.extra_shots(ctx, sc, shot, 2):
        ctx.desc = {"scene": [e.desc() for e in sc.els], "ray": s.desc()}
        res, ray = run_monitored(ctx, sc.els, optics, s, sc.L, 12 * sc.L, max_int=8, aspects=A)
        V = [v3.tup(x) for x in ray.get_plot_repr()]
        if not res.hits or len(V) < len(res.hits) + 1:
            continue
        k = ctx.i(1, len(res.hits))
        if k == len(res.hits) and ray.blocked:
            continue
        t = math.fsum(dist(a, b) for a, b in zip(V[:k], V[1:k + 1]))
        nxt = dist(V[k], V[k + 1]) if len(V) > k + 1 else 12 * sc.L
        extra = (t + 1 + sc.L) * 10.0 ** ctx.u(-8, -3)
        if extra > 0.5 * nxt:
            continue
        r = s.build()
        r.run(t + extra, optic_list=optics, max_interactions=12)
        W = [v3.tup(x) for x in r.get_plot_repr()]
        total = math.fsum(dist(a, b) for a, b in zip(W, W[1:]))
        ctx.check(not r.blocked and abs(total - (t + extra)) < 1e-10 * (t + 1 + sc.L), "a budget that reaches a hair beyond an interaction is "
                  "not flown to its end", ray=s.desc(), budget=t + extra, flown=total, hair=extra, path=W)
        ctx.check(len(W) == k + 2 and dist(W[k], V[k]) < 1e-9 * (1 + sc.L), "with a budget that ends a hair beyond an interaction the path is "
                  "another", ray=s.desc(), path=W, before=V)
        ctx.ev("hairs left of the budget flown")
        ctx.seen(k, quant([extra]))


def resumed(ctx):
    """several runs in a row of one ray, over different distances, interaction limits and parts of the scene"""
    sc, shot = scenes.make_scene(ctx, scenes.ALL, orders=(0, 1, -1), end=ctx.pick([None, "detector"]))
    optics = sc.build(sut)
    ctx.desc = {"scene": [e.desc() for e in sc.els], "ray": shot.desc()}
    ray = shot.build()
    for _ in range(ctx.i(2, 5)):
        keep = [i for i in range(len(optics)) if ctx.chance(0.8)]
        els = [sc.els[i] for i in keep]
        s = Shot(v3.tup(ray.position), v3.tup(ray.direction), shot.wavelength, shot.order)
        b = bool(ray.blocked)
        res, ray = run_monitored(ctx, els, [optics[i] for i in keep], s, max(sc.L, norm(s.P)),
                                 sc.L * ctx.u(-0.2, 3), max_int=ctx.pick([0, 1, 2, 3, 30]), aspects=A, ray=ray,
                                 start=v3.tup(ray.direction), blocked0=b)
        ctx.seen(tuple(res.kinds))
        if not res.complete:
            break
        ctx.ev("resumed runs checked")


PROP = Prop(
    "C01",
    "random mixed scenes, closed cavities, free flights and resumed runs with distance budgets from negative to many scene "
    "sizes and interaction limits from 0; every segment the oracle can decide is checked against straight flight, the vertex "
    "sequence against the budget; non-trivial if at least one was decided",
    [Family("scenes", scene_case(scenes.ALL, A, orders=(0, 1, -1, 2), end=[None, "detector"], partial=0.6,
                                 max_ints=[0, 1, 2, 3, 5]), 10000),
     Family("free-flight", nothing, 10000),
     Family("absorbed", absorbed, 3000), Family("forms", forms, 1500),
     Family("hair-left", hair_left, 3000),
     Family("resumed", resumed, 6000),
     Family("shuttle", shuttle_case("whole-number paths checked", "the path of a ray between flat mirrors is not what counting says"), 4000),
     Family("marathon", marathon_case("very long paths checked", "a very long path is not what counting says", 1000, 12000), 24, 240),
     Family("cavities", cavity_case(A, n=(0, 150)), 1500)],
    required=["segments checked", "free flights checked", "runs of absorbed rays checked", "resumed runs checked", "whole-number paths checked", "very long paths checked", "hairs left of the budget flown", "runs given a budget without end", "runs given a tuple of optics"],
    assumptions=RAY_ASSUMPTIONS)
