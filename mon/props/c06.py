"""C06 the ideal lens images perfectly."""
import math

import numpy as np

from ..core import Prop, Family, Skip
from ..common import *
from .. import sut, scenes, elements as E, v3
from ..v3 import *

A = ("ideal",)


def lens(ctx):
    S = ctx.logu(1, 100)
    if ctx.chance(0.3):
        pos = tuple(float(ctx.i(-30, 30)) for _ in range(3))
        n_raw = ctx.pick(scenes.INT_NORMALS)
        st = ctx.pick(["int", "float"])
    else:
        pos = mul(scenes.rand_unit(ctx), S * ctx.u(0, 5))
        n_raw = scenes.raw(ctx, scenes.rand_unit(ctx))
        st = "float"
    f = S * ctx.logu(0.3, 4)
    D = S * ctx.logu(0.3, 4)
    el = E.IdealLens(pos, n_raw, D, f, "ideal", style=st)
    return S, el


def line_miss(V, d, X):
    """distance of X from the line through V along d"""
    return norm(perp(sub(X, V), d))


def imaging(ctx):
    """all rays from one object point pass through its image point, wherever they cross the lens"""
    S, el = lens(ctx)
    n = mul(el.n, ctx.pick([1.0, -1.0]))        # direction of travel
    f = el.f
    kind = ctx.pick(["real", "real", "virtual", "2f", "far"])
    a = {"real": f * ctx.u(1.05, 6), "virtual": f * ctx.u(0.1, 0.95), "2f": 2 * f, "far": f * ctx.u(20, 200)}[kind]
    e = v3.rodrigues(v3.any_perp(n), n, ctx.u(0, 6.3))
    y = a * ctx.u(0, 0.8) if not ctx.chance(0.15) else 0.0
    O = madd(madd(el.pos, -a, n), y, e)
    b = 1 / (1 / f - 1 / a)
    I = madd(madd(el.pos, b, n), -y * b / a, e)
    optics = [el.build(sut)]
    ctx.desc = {"lens": el.desc(), "object": O, "image": I, "a": a, "b": b}
    for _ in range(6):
        q = madd(el.pos, el.D / 2 * math.sqrt(ctx.u(0, 0.98)), v3.rodrigues(e, n, ctx.u(0, 6.3)))
        if ctx.chance(0.1):
            q = el.pos
        if ctx.chance(0.1):
            q = madd(el.pos, y, e)               # parallel to the axis
            if y >= el.D / 2 * 0.99:
                continue
        d = sub(q, O)
        if dot(unit(d), n) < 0.05:
            continue
        ray = sut.Ray(E.arr(O, "float"), E.arr(d, "float"), wavelength=ctx.u(300, 900))
        far = dist(O, q) + (dist(q, I) if b > 0 else S)
        if ctx.chance(0.5):
            ray.run(far, optic_list=optics)
        else:
            ray.run(far * 2, optic_list=optics)
        V = [v3.tup(x) for x in ray.get_plot_repr()]
        ctx.check(len(V) == 3 and dist(V[1], q) < 1e-8 * (1 + norm(O)), "the ray did not cross the lens where it was aimed",
                  path=V, aimed=q)
        out = v3.tup(ray.direction)
        miss = line_miss(V[1], out, I)
        tol = 1e-9 * (abs(b) + a + norm(el.pos) + 1) * (1 + abs(b) / f + abs(b) / a)
        if norm(perp(unit(sub(q, O)), el.n)) < 3e-8:
            tol *= 30                             # (may be treated as parallel to the axis)
        ctx.check(miss < tol, "rays from one object point do not meet in its image point", object=O, image=I, aimed=q,
                  outgoing=out, miss=miss, tolerance=tol)
        ctx.check(dot(out, n) > 0, "the lens turned light back", outgoing=out)
        ctx.ev("rays traced to an image point (%s)" % kind)
    ctx.seen(kind)


def special(ctx):
    """chief rays, parallel bundles, focal points"""
    S, el = lens(ctx)
    n = mul(el.n, ctx.pick([1.0, -1.0]))
    f = el.f
    optics = [el.build(sut)]
    q = madd(el.pos, el.D / 2 * math.sqrt(ctx.u(0, 0.98)), v3.rodrigues(v3.any_perp(n), n, ctx.u(0, 6.3)))
    kind = ctx.pick(["chief", "bundle", "axis-parallel", "nearly-parallel", "from-focus"])
    ctx.desc = {"lens": el.desc(), "kind": kind, "through": q}
    if kind == "from-focus":
        F = madd(madd(el.pos, -f, n), f * ctx.u(0, 0.5), v3.any_perp(n))
        d = unit(sub(q, F))
        want = unit(sub(el.pos, F))
    else:
        if kind == "chief":
            q = el.pos
        if kind == "axis-parallel":
            d = n
        elif kind == "nearly-parallel":
            d = unit(madd(n, 10.0 ** ctx.u(-11, -4), scenes.rand_unit(ctx)))
        else:
            d = scenes.around(ctx, n, 0.1)
        F = madd(el.pos, f / dot(d, n), d)       # where this direction meets the focal plane
        want = d if kind == "chief" else unit(sub(F, q))
    P = madd(q, -S * ctx.u(0.1, 4), d)
    ray = sut.Ray(E.arr(P, "float"), E.arr(scenes.raw(ctx, d), "float"))
    ray.run(30 * S, optic_list=optics)
    V = [v3.tup(x) for x in ray.get_plot_repr()]
    if kind == "from-focus" and dot(d, n) < 0.02:
        raise Skip("grazing")
    ctx.check(len(V) == 3, "the ray did not cross the lens", path=V)
    out = v3.tup(ray.direction)
    # directions within 1e-8 of the axis may be treated as exactly parallel to it
    tol = (2e-8 if kind == "nearly-parallel" else 2e-9) * (1 + norm(el.pos) / f + el.D / f + S / f) / max(0.02, dot(d, n))
    ctx.check(dist(out, want) < tol, "a %s ray leaves the ideal lens in the wrong direction" % kind, incoming=d, through=q,
              outgoing=out, expected=want, tolerance=tol)
    ctx.ev("%s rays checked" % kind)
    ctx.seen(kind)


def steep(ctx):
    """rays that all but slide along the lens: they still go to where their direction meets the focal plane"""
    S = ctx.logu(0.01, 30)
    pos = mul(scenes.rand_unit(ctx), S * ctx.u(0, 2)) if ctx.chance(0.7) else (0.0, 0.0, 0.0)
    el = E.IdealLens(pos, scenes.raw(ctx, scenes.rand_unit(ctx)), S * ctx.logu(0.3, 4), S * ctx.logu(0.3, 4), "ideal")
    n = mul(el.n, ctx.pick([1.0, -1.0]))
    f = el.f
    g = 10.0 ** ctx.u(-6, -1.3)
    e = v3.rodrigues(v3.any_perp(n), n, ctx.u(0, 6.3))
    d = unit(madd(e, g, n))
    q = madd(el.pos, el.D / 2 * math.sqrt(ctx.u(0, 0.9)), v3.rodrigues(e, n, ctx.u(0, 6.3))) if ctx.chance(0.85) else el.pos
    P = madd(q, -S * ctx.u(0.1, 4), d)
    # closer than a nanometre nothing is met: a ray that rounding leaves this far along the surface meets it again
    err = 5e-16 * (norm(el.pos) + norm(P) + S) / g
    if err > 1e-10:
        raise Skip("rounding decides where this ray crosses")
    ray = sut.Ray(E.arr(P, "float"), E.arr(d, "float"))
    ray.run(60 * S, optic_list=[el.build(sut)])
    V = [v3.tup(x) for x in ray.get_plot_repr()]
    ctx.desc = {"lens": el.desc(), "through": q, "direction": d}
    ctx.check(len(V) == 3 and dist(V[1], q) < 20 * err + 1e-9 * S, "the ray did not cross the lens", path=V, aimed=q)
    # F = centre + f d / (d.n), and the ray goes from q to F: (F - q) (d.n) / f = d + (centre - q) (d.n) / f
    c = dot(d, n)
    want = unit(madd(d, c / f, sub(el.pos, V[1])))
    out = v3.tup(ray.direction)
    tol = 1e-9 * (1 + norm(el.pos) / f + el.D / f)
    ctx.check(dist(out, want) < tol, "a ray that meets the ideal lens at a grazing angle leaves in the wrong direction", incoming=d,
              through=V[1], outgoing=out, expected=want, unchanged=dist(d, want), tolerance=tol)
    ctx.check(dot(out, n) > 0, "the lens turned light back", outgoing=out)
    ctx.ev("grazing rays checked")
    ctx.seen(quant([math.log10(g)], 1))


def relay(ctx):
    """two lenses: an intermediate image relayed, with the product of the magnifications"""
    S = ctx.logu(1, 50)
    n = scenes.rand_unit(ctx)
    f1, f2 = S * ctx.u(0.5, 2), S * ctx.u(0.5, 2)
    p1 = mul(scenes.rand_unit(ctx), S * ctx.u(0, 3))
    a1 = f1 * ctx.u(1.2, 4)
    b1 = 1 / (1 / f1 - 1 / a1)
    if ctx.chance(0.4):
        a1 = f1
        sep = f1 + f2                      # 4f: object in the front focal plane
        m = -f2 / f1
        b2 = f2
    else:
        a2 = f2 * ctx.u(1.2, 4)
        sep = b1 + a2
        b2 = 1 / (1 / f2 - 1 / a2)
        m = (b1 / a1) * (b2 / a2)
    p2 = madd(p1, sep, n)
    D = 3 * (S + sep)
    e = v3.any_perp(n)
    y = S * ctx.u(0, 0.3)
    O = madd(madd(p1, -a1, n), y, e)
    I = madd(madd(p2, b2, n), m * y, e)
    els = [E.IdealLens(p1, scenes.raw(ctx, mul(n, ctx.pick([1.0, -1.0]))), D, f1, "ideal"),
           E.IdealLens(p2, scenes.raw(ctx, mul(n, ctx.pick([1.0, -1.0]))), D, f2, "ideal")]
    if ctx.chance(0.5):
        els.reverse()
    optics = [x.build(sut) for x in els]
    det = sut.Detector(E.arr(I, "float"), normal=E.arr(n, "float"), tangent=E.arr(e, "float"), h=D, w=D)
    ctx.desc = {"lenses": [x.desc() for x in els], "object": O, "image": I}
    k = 0
    for _ in range(4):
        d = scenes.around(ctx, n, 0.95)
        ray = sut.Ray(E.arr(O, "float"), E.arr(d, "float"), wavelength=500 + k)
        ray.run(40 * (a1 + sep + b2), optic_list=optics + [det])
        k += 1
    ctx.check(len(det.hit_data) == k, "%d rays through the relay, %d on the detector" % (k, len(det.hit_data)))
    tol = 1e-8 * (1 + norm(p1) + a1 + sep + b2) * 20
    for row in det.hit_data:
        ctx.check(dist(v3.tup(row[:3]), I) < tol, "the relayed rays do not meet in the image point", hit=row, image=I)
        ctx.ev("relayed rays checked")


PROP = Prop(
    "C06",
    "ideal lenses in random and whole-number poses, object points on and off axis from inside f to 200 f on either side, "
    "chief rays, parallel bundles, focal points, two-lens relays, and mixed scenes; the oracle is Gauss's imaging equation "
    "1/a+1/b=1/f with lateral magnification -b/a",
    [Family("imaging", imaging, 8000),
     Family("special-rays", special, 12000),
     Family("steep", steep, 6000),
     Family("relay", relay, 4000),
     Family("scenes", scene_case(["ideal", "ideal", "mirror", "balllens", "inert", "grating"], A, orders=(0, 1)), 6000)],
    required=["rays traced to an image point (real)", "rays traced to an image point (virtual)", "chief rays checked",
              "bundle rays checked", "axis-parallel rays checked", "from-focus rays checked", "grazing rays checked", "relayed rays checked",
              "interactions checked: ideal ideal"],
    assumptions=RAY_ASSUMPTIONS + ["converging ideal lenses (f > 0)"])
