"""C04 law of reflection."""
from ..core import Prop, Family
from ..common import *
from .. import sut, scenes, elements as E, v3
from ..v3 import *

A = ("mirror", "compound")


def order0(ctx):
    from ..common import scene_case
    return scene_case(["grating", "mirror"], ("mirror", "grating"), orders=(0,))(ctx)


def direct(ctx):
    """Ray.reflect asked directly, about normals of any length, facing either way, at any angle"""
    n = scenes.rand_unit(ctx) if ctx.chance(0.7) else unit(ctx.pick(scenes.INT_NORMALS))
    P = mul(scenes.rand_unit(ctx), ctx.logu(0.1, 100))
    ray = None
    d = None
    for _ in range(ctx.i(1, 5)):
        q = ctx.u()
        if q < 0.15:
            d0 = n
        elif q < 0.35:
            c = 10.0 ** ctx.u(-8, -1)
            d0 = scenes.around(ctx, n, c, c)
        else:
            d0 = scenes.rand_unit(ctx)
        if ray is None or ctx.chance(0.3):
            ray, d = sut.Ray(E.arr(P, "float"), E.arr(scenes.raw(ctx, d0), "float")), d0
        nr = mul(n, ctx.pick([1.0, -1.0]) * (1.0 if ctx.chance(0.3) else 10.0 ** ctx.u(-4, 4)))
        if ctx.chance(0.2):
            nr = tuple(float(x) for x in ctx.pick(scenes.INT_NORMALS))
        ray.reflect(reflect_type="specular_flat", normal=E.arr(nr, ctx.pick(["float", "int"])), intersection_pt=E.arr(P, "float"))
        want = E.reflect(d, unit(nr))
        ctx.desc = {"direction": d, "normal": nr}
        ctx.check(dist(v3.tup(ray.direction), want) < 1e-11, "reflect does not mirror the direction about the normal", got=ray.direction,
                  expected=want)
        ctx.check(dist(v3.tup(ray.position), P) == 0 and not ray.blocked, "reflect moved or absorbed the ray")
        d = want
        n = scenes.rand_unit(ctx)
        ctx.ev("direct reflections")
    ctx.seen(quant(d))


PROP = Prop(
    "C04",
    "random scenes of flat, rectangular, DMD, concave, ball and compound mirrors built along a ray's path, plus "
    "closed cavities with tens of bounces; every interaction the oracle can decide is compared with i - 2(i.n)n; "
    "an execution is non-trivial if at least one segment or interaction was decided",
    [Family("mirrors", scene_case(["mirror", "mirror", "dmd", "concave", "ballmirror", "compound_mirror"], A), 12000),
     Family("flat", scene_case(["mirror", "dmd"], A), 6000),
     Family("with-other-optics", scene_case(["mirror", "dmd", "concave", "ballmirror", "compound_mirror", "ideal",
                                             "balllens", "grating", "inert"], A, orders=(0, 1, -1)), 6000),
     Family("zero-order", order0, 3000),
     Family("direct", direct, 4000),
     Family("cavities", cavity_case(A), 1500)],
    required=["interactions checked: mirror round", "interactions checked: mirror rect",
              "interactions checked: mirror dmd", "interactions checked: mirror concave",
              "interactions checked: mirror ball", "interactions checked: compound reflect",
              "interactions checked: grating grating", "direct reflections"],
    assumptions=RAY_ASSUMPTIONS)
