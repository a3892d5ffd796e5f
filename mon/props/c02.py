"""C02 the nearest surface ahead is the one that is met."""
import math

import numpy as np

from ..core import Prop, Family, Skip
from ..common import *
from .. import sut, scenes, elements as E, v3
from ..v3 import *

A = ("nearest",)


def crowded(ctx):
    """many overlapping surfaces along one line of sight"""
    S = ctx.logu(1, 50)
    P = mul(scenes.rand_unit(ctx), S * ctx.u(0, 5))
    d = scenes.rand_unit(ctx)
    els = []
    for _ in range(ctx.i(4, 14)):
        kind = ctx.pick(["mirror", "dmd", "ideal", "grating", "detector", "ballmirror", "balllens", "compound_mirror",
                         "concave", "inert"])
        H = madd(P, S * ctx.u(-6, 12), d)
        el = scenes.MAKERS[kind](ctx, "free", H, d, S * ctx.u(0.5, 2))
        if scenes.refractive_ok(els, el):
            els.append(el)
    L = max([S] + [norm(e.bound()[0]) + e.bound()[1] for e in els if e.bound()] + [norm(P)])
    optics = [e.build(sut) for e in els]
    for k in range(4):
        s = Shot(P, scenes.raw(ctx, d if k == 0 else unit(add(d, mul(scenes.rand_unit(ctx), 0.1)))), ctx.u(200, 1500),
                 ctx.pick([0, 1]))
        ctx.desc = {"scene": [e.desc() for e in els], "ray": s.desc()}
        res, ray = run_monitored(ctx, els, optics, s, L, 20 * S, max_int=ctx.pick([1, 2, 10]), aspects=A)
        ctx.seen(tuple(res.kinds), len(els))


def many(ctx):
    """long lists: 20-250 optics, most of them out of the way"""
    n = int(ctx.logu(20, 250))
    S = ctx.logu(1, 50)
    P = mul(scenes.rand_unit(ctx), S * ctx.u(0, 5))
    els = []
    for _ in range(n):
        c = mul(scenes.rand_unit(ctx), S * ctx.u(0, 12))
        kind = ctx.pick(["mirror", "ideal", "detector", "grating", "ballmirror", "inert", "round"])
        m = scenes.rand_unit(ctx)
        D = S * ctx.u(0.3, 2)
        if kind == "round":
            els.append(E.RoundMirror(c, m, D))
        elif kind == "mirror":
            els.append(E.RectMirror(c, m, scenes.tangent_for(ctx, m), D, D))
        elif kind == "ideal":
            els.append(E.IdealLens(c, m, D, 3 * S, ctx.pick(["ideal", "ideal_collimate", "ideal_focus"])))
        elif kind == "detector":
            els.append(E.Detector(c, m, scenes.tangent_for(ctx, m), D * 0.3, D * 0.3))
        elif kind == "grating":
            els.append(E.Grating(c, m, scenes.tangent_for(ctx, m), D, D, 600))
        elif kind == "inert":
            els.append(E.Inert(ctx.pick(["Annotation", "Filter", "Window"]), c, m))
        else:
            els.append(E.BallMirror(c, D * 0.3))
    if any(isinstance(e, E.BallBase) and dist(e.pos, P) < e.R * 1.01 for e in els):
        raise Skip("starts inside a ball mirror")
    optics = [e.build(sut) for e in els]
    for _ in range(3):
        k = ctx.i(0, n - 1)
        T = els[k].pos if hasattr(els[k], "pos") else mul(scenes.rand_unit(ctx), S)
        if dist(T, P) < 1e-3 * S:
            continue
        s = Shot(P, scenes.raw(ctx, unit(sub(T, P))), ctx.u(200, 900), ctx.pick([0, 0, 1]))
        ctx.desc = {"scene": [e.desc() for e in els], "ray": s.desc()}
        res, ray = run_monitored(ctx, els, optics, s, 14 * S, 60 * S, max_int=ctx.pick([3, 8]), aspects=A)
        ctx.ev("interactions with one of many optics", len(res.kinds))
        ctx.seen(tuple(res.kinds), n)


def listing_order(ctx):
    """the same ray through the same optics listed in another order, with inert optics mixed in"""
    sc, shot = scenes.make_scene(ctx, [k for k in scenes.ALL], orders=(0, 1, -1), end=ctx.pick([None, "detector"]),
                                 decoys=ctx.i(1, 5))
    ctx.desc = {"scene": [e.desc() for e in sc.els], "ray": shot.desc()}
    optics = sc.build(sut)
    md = scenes.budget(ctx, sc.L) if ctx.chance(0.7) else sc.L * ctx.u(0, 3)
    res, ray = run_monitored(ctx, sc.els, optics, shot, sc.L, md, max_int=30, aspects=A)
    if not res.complete:
        raise Skip("the reference run meets a borderline case")
    V, d, b = np.array(ray.get_plot_repr()), np.array(ray.direction), bool(ray.blocked)
    for _ in range(3):
        perm = list(ctx.rng.permutation(len(optics)))
        lst = [optics[i] for i in perm]
        for _ in range(ctx.i(0, 3)):
            el = E.Inert(ctx.pick(["Annotation", "Filter", "Window"]), madd(shot.P, sc.S * ctx.u(0, 3), shot.d),
                         scenes.rand_unit(ctx))
            lst.insert(ctx.i(0, len(lst)), el.build(sut))
        r2 = shot.build()
        r2.run(md, optic_list=lst, max_interactions=30)
        ctx.check(np.array_equal(np.array(r2.get_plot_repr()), V) and np.array_equal(np.array(r2.direction), d) and
                  bool(r2.blocked) == b, "the order in which the optics are listed (or optics that take no part) changes "
                  "the path", order=[repr(x) for x in lst], before=V, after=r2.get_plot_repr())
        ctx.ev("listing orders compared")
    ctx.seen(tuple(res.kinds))


def lattice(ctx):
    """exact arithmetic: distances are whole numbers, so 'exactly at the end of the budget' is decidable"""
    ax = ctx.pick(scenes.AXES)
    k = next(i for i in range(3) if ax[i])
    P = tuple(float(ctx.i(-9, 9)) for _ in range(3))
    gaps = [ctx.i(1, 9) for _ in range(ctx.i(1, 4))]
    t = np.zeros(3)
    t[(k + 1) % 3] = 1
    style = ctx.pick(["int", "float"])
    els = []
    s = 0
    dists = []
    for g in gaps:
        s += g
        dists.append(s)
        pos = madd(P, float(s), ax)
        kind = ctx.pick(["det", "mirror", "round"])
        n = mul(ax, ctx.pick([1.0, -1.0, 2.0]))
        if kind == "det":
            els.append(E.Detector(pos, n, tuple(t), 4, 6, style=style))
        elif kind == "mirror":
            els.append(E.RectMirror(pos, n, tuple(t), 4, 6, style=style))
        else:
            els.append(E.RoundMirror(pos, n, 4, style=style))
    order = list(ctx.rng.permutation(len(els)))
    optics = [els[i].build(sut) for i in order]
    first = optics[order.index(0)]
    kind = els[0]
    budget = ctx.pick([dists[0], dists[0], dists[0] - 1, dists[0] + 1, dists[0] + 2, dists[-1], 1])
    budget = budget if ctx.chance(0.5) else float(budget)
    ray = sut.Ray(E.arr(P, style), E.arr(ax, style), wavelength=532)
    ctx.desc = {"scene": [e.desc() for e in els], "P": P, "d": ax, "budget": budget}
    ray.run(budget, optic_list=optics)
    V = [v3.tup(v) for v in ray.get_plot_repr()]
    if budget <= 0:
        want, blocked = [P], False
    elif budget < dists[0]:
        want, blocked = [P, madd(P, float(budget), ax)], False
    else:
        want = [P, madd(P, float(dists[0]), ax)]
        blocked = isinstance(kind, E.Detector)
        rest = budget - dists[0]
        if not blocked and rest > 0:
            want.append(madd(want[-1], -float(rest), ax))
    ctx.check(len(V) == len(want) and all(a == b for a, b in zip(V, want)) and bool(ray.blocked) == blocked,
              "a surface exactly as far away as the remaining distance must be met, one further away must not",
              got=V, expected=want, blocked=ray.blocked)
    if budget == dists[0]:
        d = v3.tup(ray.direction)
        ctx.check(d == (ax if blocked else neg(ax)), "a mirror met exactly at the end of the budget did not reflect", got=d)
        ctx.ev("surfaces met exactly at the end of the budget")
    ctx.ev("lattice runs checked")
    ctx.seen(tuple(gaps), budget, type(kind).__name__)


def tiny_gap(ctx):
    """two surfaces a hair apart: both are met, in order, and the first is not met again"""
    S = ctx.logu(1, 100)
    d = scenes.rand_unit(ctx)
    P = mul(scenes.rand_unit(ctx), S * ctx.u(0, 3))
    D = S * ctx.u(0.5, 3)
    gap = ctx.logu(3e-5, 1e-2) * (1 + S)
    A0 = madd(P, S * ctx.u(1, 3), d)
    n = d if ctx.chance(0.3) else scenes.around(ctx, d, 0.6)
    els = [E.IdealLens(A0, scenes.raw(ctx, n), D, S * ctx.u(1, 5), "ideal_collimate"),
           E.RoundMirror(madd(A0, gap, n if dot(n, d) > 0 else neg(n)), scenes.raw(ctx, n), D)]
    if ctx.chance(0.5):
        els.append(E.IdealLens(madd(A0, -gap, n if dot(n, d) > 0 else neg(n)), n, D, S * 3, "ideal_collimate"))
    els = [els[i] for i in ctx.rng.permutation(len(els))]
    optics = [e.build(sut) for e in els]
    s = Shot(P, scenes.raw(ctx, d))
    ctx.desc = {"scene": [e.desc() for e in els], "ray": s.desc()}
    res, ray = run_monitored(ctx, els, optics, s, norm(P) + 5 * S, 30 * S, max_int=12, aspects=A)
    ctx.seen(tuple(res.kinds))




def reach(ctx):
    """a surface met near a corner, coming in from beyond that corner, with hardly any distance to spare - or hardly any missing"""
    S = ctx.logu(0.05, 50)
    n = scenes.rand_unit(ctx)
    t = scenes.tangent_for(ctx, n)
    t2 = cross(n, t)
    c = mul(scenes.rand_unit(ctx), S * ctx.u(0, 3))
    kind = ctx.pick(["rect", "detector", "grating", "round", "ideal", "ball"])
    h, w = S * ctx.logu(0.1, 2), S * ctx.logu(0.1, 2)
    nr = scenes.raw(ctx, n)
    el = {"rect": lambda: E.RectMirror(c, nr, t, h, w), "detector": lambda: E.Detector(c, nr, t, h, w), "grating": lambda: E.Grating(c, nr, t, h, w, 300.0),
          "round": lambda: E.RoundMirror(c, nr, h), "ideal": lambda: E.IdealLens(c, nr, h, S, "ideal"), "ball": lambda: E.BallMirror(c, h)}[kind]()
    a, b, g = ctx.pick([1, -1]), ctx.pick([1, -1]), ctx.u(0.9, 0.999)
    if kind in ("rect", "detector", "grating"):
        out = add(mul(t, a * h / 2), mul(t2, b * w / 2))
    else:
        out = mul(unit(add(mul(t, ctx.u(-1, 1)), mul(t2, ctx.u(0.01, 1)))), h / 2)
    q = madd(c, g if kind != "ball" else 1.0, out)
    d = unit(add(neg(unit(out)), add(mul(n, ctx.pick([1, -1]) * ctx.logu(0.02, 2)), mul(scenes.rand_unit(ctx), 0.01))))
    if abs(dot(d, n)) < 0.01:
        raise Skip("grazing")
    far = S * ctx.logu(0.01, 30)
    P = madd(q, -far, d)
    if kind == "ball" and dot(d, unit(out)) > -0.05:
        raise Skip("grazing")
    spare = ctx.pick([1, -1]) * S * 10.0 ** ctx.u(-5, -1)
    if abs(spare) < 1e-7 * (1 + norm(P)) or far + spare <= 0:
        raise Skip("no distance to tell")
    o = el.build(sut)
    others = [E.Detector(madd(P, 50 * S + 50 * far, d), d, scenes.tangent_for(ctx, d), S, S).build(sut)] * ctx.i(0, 2)
    ray = sut.Ray(E.arr(P, "float"), E.arr(scenes.raw(ctx, d), "float"), wavelength=500, order=0)
    ctx.desc = {"scene": [el.desc()], "P": P, "d": d, "aimed at": q, "distance": far, "to spare": spare}
    ray.run(far + spare, optic_list=others + [o], max_interactions=1)
    want = q if spare > 0 else madd(P, far + spare, d)
    V = ray.get_plot_repr()
    ctx.check(len(V) == 2 and dist(v3.tup(V[-1]), want) < 1e-9 * (1 + norm(P) + far) / abs(dot(d, n) if kind != "ball" else 0.05),
              "a surface just within reach is not met" if spare > 0 else "a surface just out of reach is met", path=V, expected=want)
    ctx.ev("surfaces just %s reach" % ("within" if spare > 0 else "out of"))
    ctx.seen(kind, quant((S, far)))


def same_again(ctx):
    """optics that are met several times in a row: bowls, the inside of balls and of solids, facing pairs"""
    S = ctx.logu(1, 60)
    kind = ctx.pick(["bowl", "bowl", "ball", "solid", "pair"])
    c = mul(scenes.rand_unit(ctx), S * ctx.u(0, 3))
    if kind == "bowl":
        D = S * ctx.u(0.8, 2)
        f = D / 4 * ctx.logu(1.02, 2)
        n = scenes.rand_unit(ctx) if ctx.chance(0.7) else ctx.pick(scenes.AXES)
        el = E.ConcaveMirror(c, scenes.raw(ctx, n), D, f)
        els = [el]
        r = D / 2 * ctx.u(0.4, 0.97)
        z = el.rc - math.sqrt(el.rc ** 2 - r * r)
        Q = madd(madd(c, z, n), r, v3.rodrigues(v3.any_perp(n), n, ctx.u(0, 6.3)))
        P = madd(Q, el.rc * ctx.u(0.2, 1.2), n)
        d = unit(sub(Q, P))
        if ctx.chance(0.6):
            d = unit(madd(d, ctx.u(0, 0.4), scenes.rand_unit(ctx)))
    elif kind == "ball":
        els = [E.BallMirror(c, 2 * S)]
        P, d = madd(c, S * ctx.u(0, 0.9), scenes.rand_unit(ctx)), scenes.rand_unit(ctx)
    elif kind == "solid":
        a = scenes.rand_unit(ctx)
        t = ctx.pick([E.SphereLeaf(c, S), ("intersect", E.CylLeaf(c, scenes.raw(ctx, a), S * 0.6), E.SphereLeaf(c, S)),
                      ("intersect", E.SphereLeaf(madd(c, 0.5 * S, a), S), E.SphereLeaf(madd(c, -0.5 * S, a), S))])
        els = [E.CompoundEl(t, ctx.pick(["reflect", "refract"]), ctx.u(1.3, 2.5))]
        P, d = madd(c, S * ctx.u(0, 0.3), scenes.rand_unit(ctx)), scenes.rand_unit(ctx)
    else:
        n = scenes.rand_unit(ctx)
        h = S * ctx.logu(0.05, 2)
        els = [E.RoundMirror(c, n, 4 * S), E.RoundMirror(madd(c, h, n), n, 4 * S)]
        P, d = madd(c, h * ctx.u(0.05, 0.95), n), scenes.around(ctx, n, 0.2)
    if ctx.chance(0.3):
        els.append(E.Detector(madd(c, S * ctx.u(3, 6), scenes.rand_unit(ctx)), *perp_pair(ctx), S * 3, S * 3))
    els = [els[i] for i in ctx.rng.permutation(len(els))]
    optics = [e.build(sut) for e in els]
    s = Shot(P, scenes.raw(ctx, d))
    ctx.desc = {"scene": [e.desc() for e in els], "ray": s.desc()}
    res, ray = run_monitored(ctx, els, optics, s, norm(c) + 4 * S, 200 * S, max_int=ctx.i(2, 12), aspects=A)
    k = len([1 for h in zip(res.hits, res.hits[1:]) if h[0][0] is h[1][0]])
    if k:
        ctx.ev("same optic met again at once (%s)" % kind, k)
    ctx.seen(tuple(res.kinds), quant(s.d))


def perp_pair(ctx):
    n = scenes.rand_unit(ctx)
    return n, scenes.tangent_for(ctx, n)


def hairline(ctx):
    """surfaces 6e-9 .. 1e-4 apart, near the origin and far from it, and rays that start as close to one or far away; judged along the line itself"""
    n = scenes.rand_unit(ctx) if ctx.chance(0.6) else ctx.pick(scenes.AXES)
    c = mul(scenes.rand_unit(ctx), ctx.u(0, 2) if ctx.chance(0.7) else ctx.logu(10, 2e4))
    g = [ctx.logu(6e-9, 1e-4) for _ in range(ctx.i(1, 4))]
    far = ctx.chance(0.3)
    start = ctx.logu(10, 1e4) if far else ctx.pick([ctx.logu(6e-9, 1e-4), ctx.u(0.1, 2)])
    sgn = ctx.pick([1.0, -1.0])
    els, kinds = [], []
    z = 0.0
    for k, gap in enumerate(g):
        if k:
            z += gap
        pos = madd(madd(c, z, n), ctx.u(0, 0.3), v3.any_perp(n))
        last = k == len(g) - 1
        kind = ctx.pick(["detector", "mirror", "detector" if far else "ball"]) if last else "lens"   # far balls: their own rounding is 1e-8
        if kind == "lens":
            els.append(E.IdealLens(pos, mul(n, ctx.pick([1.0, -2.0])), 2.0, 3.0, "ideal_collimate"))
        elif kind == "detector":
            els.append(E.Detector(pos, mul(n, sgn), scenes.tangent_for(ctx, n), 2.0, 2.0))
        elif kind == "mirror":
            els.append(E.RoundMirror(pos, mul(n, sgn), 2.0))
        else:
            els.append(E.BallMirror(madd(madd(c, z, n), 1.0, n), 2.0))
        kinds.append(kind)
    P = madd(c, -start, n)
    total = start + z
    perm = list(ctx.rng.permutation(len(els)))
    built = [e.build(sut) for e in els]
    optics = [built[i] for i in perm]
    ray = sut.Ray(E.arr(P, "float"), E.arr(n, "float"))
    ctx.desc = {"scene": [e.desc() for e in els], "start": P, "direction": n, "gaps": g, "first": start}
    budget = ctx.pick([5.0 + total, 5.0 + total, total + 1e-7 + 10.0 ** ctx.u(-7, -3)])
    ray.run(budget, optic_list=optics, max_interactions=len(els))
    V = [v3.tup(x) for x in ray.get_plot_repr()]
    want = [P, madd(P, start, n)]
    z = start
    for gap in g[1:]:
        z += gap
        want.append(madd(P, z, n))
    ctx.check(len(V) == len(want) and all(dist(a, b) < 2e-9 for a, b in zip(V, want)),
              "surfaces 6e-9 to 1e-4 apart are not all met, in order", got=V, expected=want, kinds=kinds)
    ctx.check(bool(ray.blocked) == (kinds[-1] == "detector"), "the last surface did not do its work", kinds=kinds)
    if kinds[-1] == "detector":
        ctx.check(len(built[-1].hit_data) == 1, "the detector behind a hairline gap recorded %d hits" % len(built[-1].hit_data))
    ctx.ev("hairline gaps resolved", len(g))
    ctx.seen(tuple(kinds), quant(g))


def one_place(ctx):
    """several optics of one kind or of many that share one position, crossing each other"""
    S = ctx.logu(1, 60)
    c = mul(scenes.rand_unit(ctx), S * ctx.u(0, 3)) if ctx.chance(0.6) else tuple(float(ctx.i(-9, 9)) for _ in range(3))
    one = ctx.pick([None, "mirror", "detector", "ideal", "grating", "ball"])
    els = []
    for _ in range(ctx.i(2, 4)):
        kind = one or ctx.pick(["mirror", "detector", "ideal", "grating", "ball"])
        n = scenes.rand_unit(ctx) if ctx.chance(0.7) else ctx.pick(scenes.AXES)
        t = scenes.tangent_for(ctx, n)
        h, w = S * ctx.u(0.5, 3), S * ctx.u(0.5, 3)
        n_raw = scenes.raw(ctx, n)
        if kind == "mirror":
            els.append(E.RectMirror(c, n_raw, t, h, w) if ctx.chance(0.5) else E.RoundMirror(c, n_raw, h))
        elif kind == "detector":
            els.append(E.Detector(c, n_raw, t, h, w))
        elif kind == "ideal":
            els.append(E.IdealLens(c, n_raw, h, S * ctx.u(1, 4), ctx.pick(["ideal", "ideal_collimate", "ideal_focus"])))
        elif kind == "grating":
            els.append(E.Grating(c, n_raw, t, h, w, ctx.pick([300, 600, 1200])))
        else:
            els.append(E.BallMirror(c, S * ctx.u(0.2, 3)))
    optics = [e.build(sut) for e in els]
    for _ in range(4):
        d = scenes.rand_unit(ctx)
        tgt = madd(c, S * ctx.u(0, 1.2), scenes.rand_unit(ctx))
        s = Shot(madd(tgt, -S * ctx.u(0.5, 6), d), scenes.raw(ctx, d), ctx.u(300, 700), ctx.pick([0, 1]))
        ctx.desc = {"scene": [e.desc() for e in els], "ray": s.desc()}
        res, ray = run_monitored(ctx, els, optics, s, norm(c) + 8 * S, 30 * S, max_int=4, aspects=A)
        if res.kinds:
            ctx.ev("scenes in which optics share a place")
        ctx.seen(tuple(res.kinds), len(els))


PROP = Prop(
    "C02",
    "mixed scenes, crowds of overlapping surfaces, lists of up to 250 optics, permuted listings, whole-number lattices (where a surface can lie exactly "
    "at the end of the budget), optics met several times in a row, and hairline gaps down to 6e-9; at every step the oracle's nearest surface ahead must be the next vertex; "
    "non-trivial if at least one step was decided",
    [Family("scenes", scene_case(scenes.ALL, A, orders=(0, 1, -1), end=[None, "detector"], decoys=(2, 8), partial=0.4), 8000),
     Family("crowded", crowded, 8000), Family("many", many, 250),
     Family("listing-order", listing_order, 6000),
     Family("lattice", lattice, 10000),
     Family("tiny-gap", tiny_gap, 4000),
     Family("same-again", same_again, 5000),
     Family("hairline", hairline, 5000), Family("one-place", one_place, 5000), Family("reach", reach, 5000),
     Family("shuttle", shuttle_case("whole-number paths checked", "the surfaces along a whole-number path are not all met, each in its turn"), 3000)],
    required=["same optic met again at once (%s)" % k for k in ("bowl", "ball", "solid")] + ["hairline gaps resolved", "interactions with one of many optics", "scenes in which optics share a place", "whole-number paths checked",
              "segments checked", "listing orders compared", "lattice runs checked",
              "surfaces met exactly at the end of the budget"],
    assumptions=RAY_ASSUMPTIONS)
