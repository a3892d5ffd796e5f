"""C07 ideal collimators and focusers."""
import math

from ..core import Prop, Family
from ..common import *
from .. import sut, scenes, elements as E, v3
from ..v3 import *

A = ("ideal",)


def bundle(ctx):
    """a bundle from anywhere: collimated along the axis, or brought to the one focal point on the side it travels to"""
    S = ctx.logu(1, 100)
    t = ctx.pick(["ideal_collimate", "ideal_focus"])
    st = "float"
    if ctx.chance(0.3):
        pos = tuple(float(ctx.i(-30, 30)) for _ in range(3))
        n_raw = ctx.pick(scenes.INT_NORMALS)
        st = ctx.pick(["int", "float"])
    else:
        pos = mul(scenes.rand_unit(ctx), S * ctx.u(0, 5))
        n_raw = scenes.raw(ctx, scenes.rand_unit(ctx))
    f = S * ctx.logu(0.2, 5)
    if ctx.chance(0.2):
        f = S * ctx.logu(1e-3, 1e3)                       # much wider than long, and the other way round
        ctx.ev("extreme focal ratios")
    el = E.IdealLens(pos, n_raw, S * ctx.logu(0.3, 4), f, t, style=st)
    optics = [el.build(sut)]
    ctx.desc = {"lens": el.desc()}
    for _ in range(6):
        n = mul(el.n, ctx.pick([1.0, -1.0]))
        d = n if ctx.chance(0.1) else scenes.around(ctx, n, 0.02)
        if ctx.chance(0.15):                         # grazing
            c = 10.0 ** ctx.u(-6, -1.7)
            d = scenes.around(ctx, n, c, c)
            ctx.ev("grazing rays")
        e = v3.rodrigues(v3.any_perp(n), n, ctx.u(0, 6.3))
        q = madd(el.pos, 0.0 if ctx.chance(0.1) else el.D / 2 * math.sqrt(ctx.u(0, 0.98)), e)
        P = madd(q, -S * ctx.u(0.1, 5), d)
        ray = sut.Ray(E.arr(P, "float"), E.arr(scenes.raw(ctx, d), "float"))
        ray.run(20 * S, optic_list=optics)
        V = [v3.tup(x) for x in ray.get_plot_repr()]
        tol = 1e-8 * (1 + norm(el.pos) + S) / dot(d, n)
        ctx.check(len(V) == 3 and dist(V[1], q) < tol, "the ray did not cross the lens where it was aimed", path=V, aimed=q)
        out = v3.tup(ray.direction)
        if t == "ideal_collimate":
            ctx.check(dist(out, n) < 1e-9, "a collimator must send every ray along its axis, onwards", incoming=d,
                      outgoing=out, expected=n)
        else:
            F = madd(el.pos, el.f, n)
            miss = norm(perp(sub(F, V[1]), out))
            ctx.check(miss < 1e-9 * (1 + norm(el.pos) + S + el.f) and dot(sub(F, V[1]), out) > 0,
                      "a focuser must send every ray through its focal point, onwards", incoming=d, outgoing=out,
                      focus=F, miss=miss)
        ctx.ev("%s rays checked" % t)
    ctx.seen(t)


PROP = Prop(
    "C07",
    "ideal collimators and focusers in random and whole-number poses met from both sides at any angle and height, alone and in "
    "mixed scenes; outgoing direction = axis, or through position + f along the axis on the far side",
    [Family("bundles", bundle, 10000),
     Family("scenes", scene_case(["ideal_collimate", "ideal_focus", "mirror", "balllens", "inert", "grating", "ideal"], A,
                                 orders=(0, 1)), 8000)],
    required=["extreme focal ratios", "ideal_collimate rays checked", "ideal_focus rays checked", "grazing rays", "interactions checked: ideal ideal_collimate",
              "interactions checked: ideal ideal_focus"],
    assumptions=RAY_ASSUMPTIONS + ["f > 0"])
