"""C18 stopping a run and going on gives the same path as not stopping."""
import math

import numpy as np

from ..core import Prop, Family, Skip
from ..common import *
from .. import sut, scenes, elements as E, v3, equiv
from ..v3 import *


def whole(ctx, kinds=scenes.ALL, n=(1, 6)):
    sc, shot = scenes.make_scene(ctx, kinds, orders=(0, 1, -1), end=ctx.pick([None, "detector"]), n_hits=ctx.i(*n))
    md = scenes.budget(ctx, sc.L) if ctx.chance(0.8) else sc.L * ctx.u(0.2, 3)
    optics = sc.build(sut)
    ctx.desc = {"scene": [e.desc() for e in sc.els], "ray": shot.desc(), "distance": md}
    return sc, shot, md, optics


def usable(ctx, sc, optics, s, md, mi=80):
    base = equiv.trace(optics, s.P, s.d, md, s.wavelength, s.order, mi)
    if len(base.V) > 70 or equiv.borderline(sc.els, s.P, s.d, base.V, sc.L, s.order):
        ctx.skip("borderline path")
        return None, None
    amp = equiv.amplification(ctx, sc.els, optics, base, s.P, s.d, md, sc.L, s.wavelength, s.order, mi)
    if amp is None or amp[0][-1] > 1e4:
        ctx.skip("path too sensitive")
        return None, None
    return base, amp


def agree(ctx, base, amp, ray, verts, L, what, **w):
    V = [v3.tup(x) for x in base.V]
    far = max(L, max(norm(x) for x in V))
    ctx.check(len(verts) == len(V) and bool(ray.blocked) == base.blocked, what + ": another path", whole=base.V, pieces=verts, **w)
    for k, (a, b) in enumerate(zip(verts, V)):
        tol = 1e-11 * (1 + far) * (20 + 10 * amp[0][k]) + 2e-9
        ctx.check(dist(a, b) < tol, what + ": vertex %d elsewhere" % k, whole=base.V, pieces=verts, off=dist(a, b), tolerance=tol, **w)
    ctx.check(dist(v3.tup(ray.direction), v3.tup(base.d)) < 1e-9 * (1 + far) * (1 + amp[1]) / max(1.0, L), what + ": another final direction",
              whole=base.d, pieces=ray.direction, **w)


def by_interactions(ctx):
    """stopped after 1..k interactions, then on with what is left of the distance: the very same vertices"""
    sc, shot, md, optics = whole(ctx)
    for s in [shot] + scenes.extra_shots(ctx, sc, shot, 2):
        s.order = ctx.pick((0, 1, -1))
        base, amp = usable(ctx, sc, optics, s, md)
        if base is None:
            continue
        ray = s.build()
        left = md
        for _ in range(100):
            n0 = len(ray.get_plot_repr())
            k = ctx.pick([1, 1, 2, 3])
            ray.run(left, optic_list=optics, max_interactions=k)
            V = ray.get_plot_repr()
            ctx.check(len(V) - n0 <= k + 1, "a run limited to %d interactions recorded %d more points" % (k, len(V) - n0))
            left = md - float(np.sum(np.linalg.norm(np.diff(V, axis=0), axis=1)))
            if ray.blocked or left < 1e-7 * (1 + sc.L):
                break
        else:
            ctx.fail("a run in pieces does not come to its end")
        agree(ctx, base, amp, ray, [v3.tup(x) for x in ray.get_plot_repr()], sc.L, "a run stopped after so many interactions and resumed",
              shot=s.desc(), scene=[e.desc() for e in sc.els])
        ctx.ev("runs split by interactions")
        ctx.seen(len(base.V), quant(s.d))


def by_distance(ctx):
    """stopped in mid-flight: the same path, with the stopping points on it"""
    sc, shot, md, optics = whole(ctx)
    for s in [shot] + scenes.extra_shots(ctx, sc, shot, 2):
        s.order = ctx.pick((0, 1, -1))
        base, amp = usable(ctx, sc, optics, s, md)
        if base is None:
            continue
        arc = np.concatenate([[0.0], np.cumsum(np.linalg.norm(np.diff(base.V, axis=0), axis=1))])
        if arc[-1] <= 0:
            continue
        cuts = sorted(arc[-1] * ctx.u(0, 1) for _ in range(ctx.i(1, 4)))
        # half of the time aim the cut at a particular segment
        if ctx.chance(0.6) and len(arc) > 2:
            j = ctx.i(0, len(arc) - 2)
            cuts = sorted(cuts + [arc[j] + (arc[j + 1] - arc[j]) * ctx.u(0.001, 0.999)])
        if any(np.min(np.abs(arc - c)) < 1e-5 * (1 + sc.L) for c in cuts) or any(b - a < 1e-6 for a, b in zip(cuts, cuts[1:])):
            ctx.skip("cut at a surface")
            continue
        ray = s.build()
        done = 0.0
        stops = []
        for c in cuts + [md]:
            n0 = len(ray.get_plot_repr())
            ray.run(c - done, optic_list=optics)
            done = c
            stops.append(v3.tup(ray.position))
            if c != md:
                ctx.check(not ray.blocked, "a run stopped in mid-flight is absorbed", at=ray.position)
        verts = []
        inner = stops[:-1]
        for x in ray.get_plot_repr():
            x = v3.tup(x)
            if inner and x == inner[0]:
                k = int(np.searchsorted(arc, cuts[len(stops) - 1 - len(inner)], side="right"))
                a, b = v3.tup(base.V[k - 1]), v3.tup(base.V[k])
                on = norm(perp(sub(x, a), unit(sub(b, a))))
                ctx.check(on < 1e-9 * (1 + sc.L) * (10 + 10 * amp[0][-1]), "the stopping point is not on the path", stop=x, off=on)
                inner = inner[1:]
                continue
            verts.append(x)
        ctx.check(not inner, "the stopping points are not on the recorded path", stops=stops, path=ray.get_plot_repr())
        agree(ctx, base, amp, ray, verts, sc.L, "a run stopped in mid-flight and resumed", shot=s.desc(), cuts=cuts,
              scene=[e.desc() for e in sc.els])
        ctx.ev("runs split by distance")
        ctx.note("cuts", len(cuts))
        ctx.seen(len(base.V), len(cuts), quant(s.d))


def handed_over(ctx):
    """a new ray started at a stop with the same direction goes on like the old one"""
    sc, shot, md, optics = whole(ctx)
    s = shot
    base, amp = usable(ctx, sc, optics, s, md)
    if base is None or len(base.V) < 3:
        return
    k = ctx.i(1, len(base.V) - 2)
    a = s.build()
    a.run(md, optic_list=optics, max_interactions=k)
    P, d = v3.tup(a.position), v3.tup(a.direction)
    left = md - float(np.sum(np.linalg.norm(np.diff(a.get_plot_repr(), axis=0), axis=1)))
    if a.blocked or left <= 1e-6:
        return
    b = sut.Ray(E.arr(P, "float"), E.arr(d, "float"), wavelength=s.wavelength, order=s.order)
    b.run(left, optic_list=optics)
    verts = [v3.tup(x) for x in a.get_plot_repr()] + [v3.tup(x) for x in b.get_plot_repr()[1:]]
    agree(ctx, base, amp, b, verts, sc.L, "a path taken over by a new ray at a surface", shot=s.desc(), scene=[e.desc() for e in sc.els], at=P)
    ctx.ev("paths handed over")
    ctx.seen(len(base.V), k)


def tight(ctx):
    """between two mirrors a hair apart every reflection counts, and stopping after each of them changes nothing"""
    S = ctx.logu(0.01, 1)
    n = scenes.rand_unit(ctx)
    t = scenes.tangent_for(ctx, n)
    c = mul(scenes.rand_unit(ctx), S * ctx.u(0, 1))
    g = 10.0 ** ctx.u(-7.5, -4)
    els = []
    for s in (1, -1):
        p = madd(c, s * g / 2, n)
        m = scenes.raw(ctx, mul(n, ctx.pick([1.0, -1.0])))
        els.append(E.RoundMirror(p, m, 4 * S) if ctx.chance(0.5) else E.RectMirror(p, m, unit(perp(t, n)), 4 * S, 4 * S))
    optics = [e.build(sut) for e in els]
    if ctx.chance(0.5):
        optics.reverse()
    d = scenes.around(ctx, mul(n, ctx.pick([1.0, -1.0])), 0.3)
    N = ctx.i(2, 40)
    hop = g / abs(dot(d, n))
    first = hop * ctx.u(0.2, 0.8)
    P = madd(madd(c, S * ctx.u(-0.5, 0.5), t), g / 2 * (1.0 if dot(d, n) > 0 else -1.0), n)
    P = madd(P, -first, d)
    md = first + hop * (N - 1 + ctx.u(0.2, 0.8))
    ctx.desc = {"mirrors": [e.desc() for e in els], "gap": g, "P": P, "d": d, "reflections": N, "distance": md}
    ref = sut.Ray(E.arr(P, "float"), E.arr(d, "float"))
    ref.run(md, optic_list=optics)
    V = np.array(ref.get_plot_repr())
    tol = 1e-12
    ctx.check(len(V) == N + 2, "a ray between two mirrors a hair apart is reflected %d times, not %d times" % (len(V) - 2, N))
    lat = perp(d, n)
    for k in range(N):
        want = madd(P, first + k * hop, lat)
        ctx.check(norm(perp(sub(v3.tup(V[k + 1]), want), n)) < 1e-11, "reflection %d between mirrors a hair apart is off" % k, got=V[k + 1], expected=want)
    # limited
    k = ctx.i(0, N)
    r = sut.Ray(E.arr(P, "float"), E.arr(d, "float"))
    r.run(md, optic_list=optics, max_interactions=k)
    W = np.array(r.get_plot_repr())
    if k:
        ctx.check(len(W) == k + 1 and np.max(np.abs(W - V[:k + 1])) < tol, "limited to %d interactions, a ray between mirrors a hair apart makes %d" % (k, len(W) - 1))
    # on in pieces
    ray = sut.Ray(E.arr(P, "float"), E.arr(d, "float"))
    for _ in range(N + 5):
        X = np.array(ray.get_plot_repr())
        left = md - float(np.sum(np.linalg.norm(np.diff(X, axis=0), axis=1)))
        if left < 0.05 * hop:
            break
        ray.run(left, optic_list=optics, max_interactions=ctx.pick([1, 1, 2, 3]))
    W = np.array(ray.get_plot_repr())
    ctx.check(W.shape == V.shape and np.max(np.abs(W - V)) < 1e-11, "between mirrors a hair apart a run in pieces is another path", points=[len(V), len(W)])
    ctx.ev("runs between mirrors a hair apart")
    ctx.seen(N, k, round(math.log10(g)))


PROP = Prop(
    "C18",
    "mixed scenes run in one go and in pieces: stopped after every 1-3 interactions, stopped in mid-flight at random distances, or handed to a new "
    "ray at a surface; the vertices must agree within measured amplification of rounding",
    [Family("interactions", by_interactions, 4500), Family("distance", by_distance, 4500), Family("handed-over", handed_over, 3000), Family("tight", tight, 2000),
     Family("shuttle", shuttle_case("whole-number runs in pieces", "a run in whole-number pieces does not give the path of one run"), 4000),
     Family("marathon", marathon_case("runs after very long ones", "a run that follows a very long one does not go on as it should", 1000, 6000), 16, 160)],
    required=["runs split by interactions", "runs split by distance", "paths handed over", "runs between mirrors a hair apart", "whole-number runs in pieces", "runs after very long ones"],
    assumptions=RAY_ASSUMPTIONS)
