"""C05 Snell's law and total internal reflection."""
import math

from ..core import Prop, Family, Skip
from ..common import scene_case, cavity_case, RAY_ASSUMPTIONS, quant
from .. import sut, scenes, elements as E, v3
from ..v3 import *
from ..trace import run_monitored, Shot

A = ("lens", "compound")


def inside(ctx):
    """rays that start inside the glass"""
    S = ctx.logu(1, 100)
    c = mul(scenes.rand_unit(ctx), S * ctx.u(0, 4))
    R = S * ctx.u(0.3, 2)
    idx = ctx.u(1.01, 3.0) if ctx.chance(0.85) else ctx.pick([1.0, 0.6, 1, 2])
    if ctx.chance(0.5):
        els = [E.BallLens(c, 2 * R, idx)]
        P = madd(c, R * ctx.u(0, 0.98), scenes.rand_unit(ctx)) if ctx.chance(0.9) else c
    else:
        a = scenes.rand_unit(ctx)
        t = ctx.pick([
            E.SphereLeaf(c, R),
            ("intersect", E.SphereLeaf(madd(c, 0.5 * R, a), R), E.SphereLeaf(madd(c, -0.5 * R, a), R * ctx.u(0.9, 1.2))),
            ("difference", E.SphereLeaf(c, R), E.SphereLeaf(madd(c, R, a), R * ctx.u(0.3, 0.9))),
            ("union", E.SphereLeaf(c, R), E.SphereLeaf(madd(c, R, a), R * ctx.u(0.3, 0.9))),
            ("intersect", E.CylLeaf(c, a, R * 0.6), E.SphereLeaf(c, R)),
        ])
        els = [E.CompoundEl(t, "refract", idx)]
        for _ in range(40):
            P = madd(c, R * ctx.u(0, 0.98), scenes.rand_unit(ctx))
            if els[0].inside(P):
                break
        else:
            return
    optics = [e.build(sut) for e in els]
    for _ in range(5):
        d = scenes.rand_unit(ctx)
        s = Shot(P, scenes.raw(ctx, d), ctx.u(200, 2000))
        ctx.desc = {"scene": [e.desc() for e in els], "ray": s.desc()}
        res, ray = run_monitored(ctx, els, optics, s, norm(c) + 2 * R, 50 * S, max_int=12, aspects=A)
        ctx.seen(tuple(res.kinds), quant(d))


def whole_ball(ctx):
    """end to end through one ball: n sin(theta) is conserved about the centre, so the ray leaves with the impact
    parameter it came with, turned by 2(i - r), in the plane of incidence"""
    S = ctx.logu(1, 100)
    c = mul(scenes.rand_unit(ctx), S * ctx.u(0, 3))
    R = S * ctx.u(0.3, 2)
    idx = ctx.u(1.02, 2.8)
    d = scenes.rand_unit(ctx)
    e = v3.rodrigues(v3.any_perp(d), d, ctx.u(0, 2 * math.pi))
    b = R * ctx.u(0, 0.98)
    if ctx.chance(0.3):                              # a grazing ray
        g = 10.0 ** ctx.u(-2.4, -0.7)
        b = R * math.sqrt(1 - g * g)
        ctx.ev("grazing rays through balls")
    P = madd(madd(c, b, e), -R * ctx.u(1.2, 5), d)
    ball = sut.Lens(E.arr(c, "float"), shape="spherical", D=2 * R, index=idx) if ctx.chance(0.5) else \
        sut.Compound(sut.BinaryTree(sut.Sphere(E.arr(c, "float"), D=2 * R)), "refract", idx)
    ray = sut.Ray(E.arr(P, "float"), E.arr(d, "float"))
    ctx.desc = {"ball": [c, R, idx], "P": P, "d": d}
    ray.run(20 * S + 20 * R, optic_list=[ball])
    V = [v3.tup(x) for x in ray.get_plot_repr()]
    out = v3.tup(ray.direction)
    ctx.check(len(V) == 4, "a ray through a ball of higher index crosses its surface twice", vertices=V, ball=[c, R, idx])
    dev = 2 * (math.asin(b / R) - math.asin(b / R / idx))
    want = sub(mul(d, math.cos(dev)), mul(e, math.sin(dev)))
    ctx.check(dist(out, want) < 1e-8, "a ball turns a ray by the wrong angle", got=out, expected=want, impact=b, R=R, n=idx)
    imp = norm(perp(sub(V[-1], c), out))
    ctx.check(abs(imp - b) < 1e-8 * (1 + S + norm(c)), "n r sin(theta) is not conserved through a ball", before=b, after=imp)
    ctx.ev("whole-ball deviations checked")
    ctx.seen(quant((b / R, idx)))


def direct(ctx):
    """a single surface: a ray refracted at a point with a given unit normal, whichever way the normal was written"""
    n = scenes.rand_unit(ctx)
    c = ctx.pick([ctx.u(0, 1), 10.0 ** ctx.u(-7, 0), 1 - 10.0 ** ctx.u(-12, -1), 1.0])    # cosine of incidence
    c = min(max(c, 1e-7), 1.0)
    e = v3.rodrigues(v3.any_perp(n), n, ctx.u(0, 2 * math.pi))
    d = unit(add(mul(n, -c), mul(e, math.sqrt(max(0.0, 1 - c * c)))))
    n1 = ctx.pick([1.0, 1.0, 1.5, ctx.u(0.5, 4), 1, 2])
    n2 = ctx.pick([1.0, 1.0, 1.5, ctx.u(0.5, 4), 1, 2, n1, n1 * (1 + ctx.pick([-1, 1]) * 10.0 ** ctx.u(-9, -2))])
    s = ctx.pick([1.0, -1.0])
    p = mul(scenes.rand_unit(ctx), ctx.logu(1, 100))
    ray = sut.Ray(E.arr(sub(p, mul(d, ctx.u(0.1, 5))), "float"), E.arr(d, "float"), wavelength=ctx.u(200, 2000), order=ctx.pick([0, 0, 1, -1]))
    d = v3.tup(ray.direction)
    N = E.arr(mul(n, s), "float")
    ctx.desc = {"d": d, "normal": v3.tup(N), "n1": n1, "n2": n2}
    cos1 = -dot(d, n)
    if cos1 < 1e-8:
        raise Skip("grazing beyond rounding")
    r = n1 / n2
    s2 = r * r * (1 - cos1 * cos1)
    if abs(s2 - 1) < 1e-9:
        raise Skip("at the critical angle")
    ray.refract(refract_type="snells_law", normal=N, intersection_pt=E.arr(p, "float"), eta1=n1, eta2=n2)
    got = v3.tup(ray.direction)
    if s2 > 1:
        want = madd(d, 2 * cos1, n)
        tol = 1e-9
        kind = "reflected totally"
    else:
        c2 = math.sqrt(1 - s2)
        want = add(mul(d, r), mul(n, r * cos1 - c2))
        tol = 1e-9 + 1e-14 / c2
        kind = "refracted"
    ctx.check(dist(got, want) < tol, "a surface sends a ray in the wrong direction", got=got, expected=want, d=d, normal=v3.tup(N), n1=n1, n2=n2)
    ctx.check(v3.tup(N) == mul(n, s), "the normal handed in was changed")
    ctx.ev("single surfaces: %s" % kind)
    if cos1 < 1e-3:
        ctx.ev("single surfaces, grazing: %s" % kind)
    ctx.ev("single surfaces, normal %s the ray" % ("against" if s > 0 else "along"))
    ctx.seen(quant(d), quant((n1, n2)), s)


PROP = Prop(
    "C05",
    "random non-overlapping ball lenses and CSG solids (spheres, cylinders, lenses, unions, differences; index 0.6 to 4) "
    "met from outside and from inside; every surface crossing the oracle can decide is compared with the vector form of "
    "Snell's law, or with mirror reflection beyond the critical angle; non-trivial if at least one was decided",
    [Family("bodies", scene_case(["balllens", "balllens", "compound"], A), 9000),
     Family("with-other-optics", scene_case(["balllens", "compound", "mirror", "ideal", "grating", "concave", "inert"], A,
                                            orders=(0, 1)), 6000),
     Family("from-inside", inside, 6000),
     Family("whole-ball", whole_ball, 6000),
     Family("single-surface", direct, 20000),
     Family("cavities", cavity_case(A), 1500)],
    required=["interactions checked: lens ball", "interactions checked: lens ball (total internal reflection)",
              "interactions checked: compound refract",
              "interactions checked: compound refract (total internal reflection)", "whole-ball deviations checked", "grazing rays through balls"] +
    ["single surfaces: refracted", "single surfaces: reflected totally", "single surfaces, grazing: refracted", "single surfaces, grazing: reflected totally",
     "single surfaces, normal against the ray", "single surfaces, normal along the ray"],
    assumptions=RAY_ASSUMPTIONS)
