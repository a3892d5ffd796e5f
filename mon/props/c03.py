"""C03 directions stay finite unit vectors; tracing leaves wavelength, order and type alone."""
import math

import numpy as np

from ..core import Prop, Family
from ..common import *
from .. import sut, scenes, elements as E, v3
from ..v3 import *

A = ("unit",)
TYPES = ["normal", "normal", "chief", "marginal", "reference", "Normal", "probe"]


def constructed(ctx):
    """a ray may be given any non-zero direction; what it keeps is its unit vector"""
    if ctx.chance(0.3):
        raw = tuple(float(ctx.i(-9, 9)) for _ in range(3))
        if raw == (0.0, 0.0, 0.0):
            raw = (0.0, 0.0, 1.0)
        st = "int"
    else:
        raw = mul(scenes.rand_unit(ctx), 10.0 ** ctx.u(-100, 100))
        if ctx.chance(0.3):
            raw = tuple(x if ctx.chance(0.6) else 0.0 for x in raw)
            if norm(raw) == 0:
                raw = (0.0, -2.0, 0.0)
        st = "float"
    P = tuple(ctx.u(-100, 100) for _ in range(3))
    wl, order = ctx.u(100, 3000), ctx.i(-5, 5)
    kind = ctx.pick(TYPES + ["faerie_fire"])
    ray = sut.Ray(np.array(P), E.arr(raw, st), wavelength=wl, order=order, type=kind)
    ctx.desc = {"direction": raw, "wavelength": wl, "order": order}
    d = v3.tup(ray.direction)
    ctx.check(dist(d, unit(raw)) < 1e-12, "a new ray's direction is not the unit vector of what it was given", got=d)
    ctx.check(ray.wavelength == wl and ray.order == order and ray.type == kind, "a new ray lost its wavelength, order or type")
    ray.run(ctx.logu(0.1, 100))
    ctx.check(dist(v3.tup(ray.direction), d) < 1e-12 and ray.wavelength == wl and ray.order == order,
              "free flight changed the ray")
    ctx.check(ray.type == kind, "free flight changed the ray's type", got=ray.type)
    ctx.ev("constructed rays checked")


def stepped(ctx):
    """stop after every single interaction and look"""
    orders = (0, 1, -1, 2, -3)
    sc, shot = scenes.make_scene(ctx, scenes.ALL, orders=orders, n_hits=ctx.i(2, 7), end=ctx.pick([None, "detector"]))
    optics = sc.build(sut)
    ctx.desc = {"scene": [e.desc() for e in sc.els], "ray": shot.desc()}
    for s in [shot] + scenes.extra_shots(ctx, sc, shot, 3):
        s.order = ctx.pick(orders)
        s.type = ctx.pick(TYPES)
        ray = s.build()
        for step in range(15):
            n = len(ray.get_plot_repr())
            ray.run(scenes.budget(ctx, sc.L), optic_list=optics, max_interactions=1)
            d = np.asarray(ray.direction, dtype=float)
            ctx.check(d.shape == (3,) and np.all(np.isfinite(d)) and abs(np.linalg.norm(d) - 1) < 1e-11,
                      "after an interaction the direction is not a finite unit vector", direction=d,
                      norm=float(np.linalg.norm(d)), ray=s.desc(), scene=[e.desc() for e in sc.els],
                      path=ray.get_plot_repr())
            ctx.check(ray.wavelength == s.wavelength and ray.order == s.order and ray.type == s.type,
                      "an interaction changed wavelength, order or type", got=[ray.wavelength, ray.order, ray.type],
                      ray=s.desc(), scene=[e.desc() for e in sc.els])
            ctx.check(np.all(np.isfinite(np.asarray(ray.position, dtype=float))), "the ray's position is not finite")
            ctx.ev("states after an interaction checked")
            if ray.blocked or len(ray.get_plot_repr()) == n or norm(v3.tup(ray.position)) > 1.5 * sc.L + 10:
                break


def echelle(ctx):
    """gratings worked in very high orders: what leaves is a unit vector, and the ray keeps its order and wavelength"""
    S = ctx.logu(0.1, 50)
    n = scenes.rand_unit(ctx)
    pos = mul(scenes.rand_unit(ctx), S * ctx.u(0, 3))
    G = ctx.logu(0.1, 3000)
    el = E.Grating(pos, scenes.raw(ctx, n), scenes.tangent_for(ctx, n), S, S, G)
    o = el.build(sut)
    m = ctx.i(3, 80) * ctx.pick([1, -1])
    wl = min(2000.0, ctx.u(0.02, 1.9) * 1e6 / (G * abs(m)))
    d = scenes.around(ctx, neg(el.n), 0.05)
    k = ctx.i(1, 3)
    ctx.desc = {"grating": el.desc(), "order": m, "wavelength": wl, "direction": d}
    kind = ctx.pick(TYPES)
    q = madd(madd(pos, S * ctx.u(-0.45, 0.45), el.tan), S * ctx.u(-0.45, 0.45), el.tan2)
    ray = sut.Ray(E.arr(madd(q, -S, d), "float"), E.arr(scenes.raw(ctx, d), "float"), wavelength=wl, order=m, type=kind)
    # a second, third: the same grating met again by a ray that a mirror sends back
    back = E.BallMirror(pos, 40 * S).build(sut)
    for _ in range(k):
        ray.run(200 * S, optic_list=[o, back], max_interactions=ctx.i(1, 3))
        v = np.asarray(ray.direction, dtype=float)
        ctx.check(np.all(np.isfinite(v)) and abs(np.linalg.norm(v) - 1) < 1e-11, "after a grating in a high order the direction is not a finite "
                  "unit vector", direction=v)
        ctx.check(ray.wavelength == wl and ray.order == m and ray.type == kind, "a grating changed the wavelength, the order or the type",
                  got=[ray.wavelength, ray.order, ray.type])
        ctx.ev("high orders checked")
        if ray.blocked:
            break
    ctx.seen(m, k)


def long_chain(ctx):
    """hundreds of interactions of one ray: the norm must not drift"""
    S = ctx.logu(2, 60)
    els = [E.BallMirror((0.0, 0.0, 0.0), 2 * S)]
    for _ in range(ctx.i(1, 3)):
        R = S * ctx.u(0.1, 0.3)
        el = E.BallLens(mul(scenes.rand_unit(ctx), S * ctx.u(0, 0.55)), 2 * R, ctx.u(1.1, 2.2))
        if scenes.refractive_ok(els, el):
            els.append(el)
    optics = [e.build(sut) for e in els]
    shot = Shot(mul(scenes.rand_unit(ctx), S * 0.93), scenes.rand_unit(ctx), ctx.u(200, 2000), ctx.i(-2, 2))
    ctx.desc = {"scene": [e.desc() for e in els], "ray": shot.desc()}
    ray = shot.build()
    for _ in range(10):
        ray.run(1e6 * S, optic_list=optics, max_interactions=40)
        d = np.asarray(ray.direction, dtype=float)
        ctx.check(np.all(np.isfinite(d)) and abs(np.linalg.norm(d) - 1) < 1e-10 and ray.wavelength == shot.wavelength
                  and ray.order == shot.order, "direction, wavelength or order drift over a long path",
                  norm=float(np.linalg.norm(d)), path_points=len(ray.get_plot_repr()))
        ctx.ev("long-chain states checked")
    ctx.counters["~interactions along long chains"] += len(ray.get_plot_repr()) - 1


PROP = Prop(
    "C03",
    "rays constructed with directions of any length, stepped one interaction at a time through mixed scenes, and run for "
    "hundreds of interactions in cavities; |d|=1 within 1e-10, everything finite, wavelength/order/type identical",
    [Family("constructed", constructed, 10000),
     Family("stepped", stepped, 12000),
     Family("scenes", scene_case(scenes.ALL, A, orders=(0, 1, -1, 2, 3), end=[None, "detector"]), 8000),
     Family("echelle", echelle, 3000),
     Family("long-chain", long_chain, 200, 2500)],
    required=["constructed rays checked", "states after an interaction checked", "high orders checked", "long-chain states checked"],
    assumptions=RAY_ASSUMPTIONS)
