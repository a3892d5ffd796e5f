"""C26 contradictory or incomplete specifications are refused, consistent ones accepted."""
import math

import numpy as np

from ..core import Prop, Family, Skip
from ..common import *
from .. import sut, scenes, elements as E, v3
from ..v3 import *


def refused(ctx, what, make, note):
    try:
        o = make()
    except ValueError:
        ctx.ev("refused: " + what)
        return
    except Exception as e:
        ctx.fail("%s: %s was not refused with a ValueError but with %s" % (what, note, type(e).__name__), error=str(e))
    ctx.fail("%s: %s was accepted" % (what, note), got=repr(type(o)))


def pose(ctx):
    st = ctx.pick(["int", "float"])
    if st == "int":
        pos = tuple(float(ctx.i(-40, 40)) for _ in range(3))
        while True:
            n = ctx.pick(scenes.INT_NORMALS)
            ts = [t for t in scenes.INT_NORMALS if dot(t, n) == 0]
            if ts:
                break
        return st, pos, n, ctx.pick(ts)
    n0 = scenes.rand_unit(ctx)
    return st, mul(scenes.rand_unit(ctx), ctx.logu(0.1, 500)), scenes.raw(ctx, n0), scenes.raw(ctx, scenes.tangent_for(ctx, n0))


def size(ctx):
    return float(ctx.i(1, 50)) if ctx.chance(0.3) else (ctx.logu(0.05, 500) if ctx.chance(0.75) else ctx.logu(0.02, 1e6))


def solids(ctx):
    """radius and diameter: one of them, or both in agreement"""
    st, pos, n, t = pose(ctx)
    a = lambda v: E.arr(v, st)
    R = size(ctx)
    make = {"sphere": lambda **k: sut.Sphere(a(pos), **k),
            "circle": lambda **k: sut.Circle(a(pos), a(n), **k),
            "cylinder": lambda **k: sut.InfiniteCylinder(a(pos), a(n), **k)}
    kind = ctx.pick(sorted(make))
    f = make[kind]
    num = ctx.pick([float, np.float64]) if R != int(R) else ctx.pick([float, int, np.int64, np.float64])
    ctx.desc = {"kind": kind, "R": R, "position": pos}
    refused(ctx, "neither radius nor diameter", lambda: f(), kind)
    off = ctx.pick([2.0, 0.5, 4.0, 1 + 10 ** ctx.u(-5.5, 0), 1 - 10 ** ctx.u(-5.5, -0.01), -1.0])
    refused(ctx, "conflicting radius and diameter", lambda: f(R=num(R), D=2 * R * off), "%s with R=%r, D=%r" % (kind, R, 2 * R * off))
    if ctx.chance(0.25):
        zero = ctx.pick([0, 0.0, np.float64(0)])
        refused(ctx, "a size of nothing next to another", ctx.pick([lambda: f(R=zero, D=num(2 * R)), lambda: f(R=num(R), D=zero)]), kind)
    shapes = [f(R=num(R)), f(D=num(2 * R)), f(R=num(R), D=num(2 * R)), f(R=R, D=2 * R * (1 + ctx.pick([1, -1]) * 1e-13))]
    for o in shapes:
        ctx.check(abs(o.R - R) <= 1e-12 * R and abs(o.D - 2 * R) <= 1e-12 * R, "radius and diameter of a %s do not agree with what was given" % kind, R=o.R, D=o.D, given=R)
    ctx.ev("accepted: radius or diameter")
    # they are the same solid however the size was given
    P = madd(pos, 4 * R, scenes.rand_unit(ctx))
    aim = madd(pos, R * ctx.u(0, 1.3), scenes.rand_unit(ctx))
    if dist(P, aim) < 1e-3 * R:
        return
    d = unit(sub(aim, P))
    hits = []
    for o in shapes[:3]:
        r = o.test_intersect(sut.Ray(np.array(P), np.array(d)))
        hits.append((bool(r[0]),) + tuple(None if v is None else tuple(float(x) for x in v) for v in r[1:3]))
    flat = lambda h: [x for v in h[1:] if v is not None for x in v]
    for h in hits[1:]:
        same = h[0] == hits[0][0] and len(flat(h)) == len(flat(hits[0])) and all(abs(x - y) <= 1e-6 * (1 + R + norm(pos)) for x, y in zip(flat(h), flat(hits[0])))
        ctx.check(same, "a %s given by its diameter is hit elsewhere than one given by its radius" % kind, hits=hits, R=R)
    ctx.ev("solids compared by radius and by diameter")
    ctx.seen(kind, quant((R,)), hits[0][0])


def plates(ctx):
    """rectangles: both sides, not negative, tangent in the plane"""
    st, pos, n, t = pose(ctx)
    a = lambda v: E.arr(v, st)
    h, w = size(ctx), size(ctx)
    make = {"rectangle": lambda nn, tt, **k: sut.Rectangle(a(pos), nn, tt, **k),
            "mirror": lambda nn, tt, **k: sut.Mirror(a(pos), shape="rectangular_flat", normal=nn, tangent=tt, **k),
            "grating": lambda nn, tt, **k: sut.Grating(a(pos), nn, tt, G=600, **k),
            "detector": lambda nn, tt, **k: sut.Detector(a(pos), nn, tt, **k)}
    kind = ctx.pick(sorted(make))
    f = make[kind]
    N, T = a(n), a(t)
    ctx.desc = {"kind": kind, "position": pos, "normal": n, "tangent": t, "h": h, "w": w}
    k = ctx.i(0, 5)
    if k == 0:
        kw = ctx.pick([{}, {"h": h}, {"w": w}, {"h": None, "w": w}, {"h": h, "w": None}])
        refused(ctx, "side missing", lambda: f(N, T, **kw), "%s with only %s" % (kind, sorted(kw)))
    elif k == 1:
        kw = ctx.pick([{"h": -h, "w": w}, {"h": h, "w": -w}, {"h": -h, "w": -w}, {"h": -1e-6, "w": w}, {"h": h, "w": -1e-6}])
        refused(ctx, "negative side", lambda: f(N, T, **kw), "%s with %s" % (kind, kw))
    elif k == 2:
        eps = ctx.pick([1, -1]) * ctx.logu(1e-6, 10)
        skew = madd(unit(t), eps, unit(n))
        lean = eps / math.sqrt(1 + eps * eps)
        if ctx.chance(0.2):
            skew, lean = ctx.pick([unit(n), neg(unit(n))]), 1.0
        scale = ctx.logu(0.1, 10)
        refused(ctx, "tangent out of the plane", lambda: f(np.array(n, dtype=float), np.array(mul(skew, scale)), h=h, w=w),
                "%s with a tangent leaning by %g" % (kind, lean))
    else:
        o = f(N, T, h=h, w=w)
        ctx.check(o.h == h and o.w == w, "a %s does not remember its sides" % kind, h=o.h, w=o.w)
        ctx.check(dist(tuple(map(float, o.normal)), unit(n)) < 1e-12 and (kind == "mirror" or dist(tuple(map(float, o.tangent)), unit(t)) < 1e-12),
                  "a %s does not keep its normal and tangent (as unit vectors)" % kind, normal=o.normal)
        ctx.ev("accepted: " + kind)
    ctx.seen(kind, k, quant((h, w)))


NAMES = ["", "circle", "rectangular", "Circular_flat", "circular_flat ", "spherical_biconcave", "spherical ", "unknown", "Rectangular_flat", "flat", None, 0]


def shapes(ctx):
    """names of shapes and behaviours that do not exist"""
    st, pos, n, t = pose(ctx)
    a = lambda v: E.arr(v, st)
    h, w, D = size(ctx), size(ctx), size(ctx)
    bad = ctx.pick(NAMES)
    which = ctx.i(0, 7)
    ctx.desc = {"which": which, "name": bad}
    if which == 0:
        nm = ctx.pick([bad, "spherical", "spherical_biconvex"])
        refused(ctx, "unknown shape of a mirror", lambda: sut.Mirror(a(pos), shape=nm, normal=a(n), tangent=a(t), D=D, h=h, w=w, f=D), repr(nm))
    elif which == 1:
        nm = ctx.pick([bad, "circular_flat", "rectangular_flat", "circular_convex_spherical"])
        refused(ctx, "unknown shape of a lens", lambda: sut.Lens(a(pos), a(n), shape=nm, D=D, h=h, w=w, f=D), repr(nm))
    elif which in (2, 3):
        nm = ctx.pick([bad, "circular_flat", "circular_concave_spherical"])
        cls = (sut.Grating, sut.Detector)[which - 2]
        refused(ctx, "unknown shape of a grating or detector", lambda: cls(a(pos), a(n), a(t), shape=nm, h=h, w=w), repr(nm))
    elif which == 4:
        beh = ctx.pick(["", "absorb", "Reflect", "refracting", None, "mirror"])
        c = sut.Compound(sut.BinaryTree(sut.Sphere(a(pos), D=D)), surface_behavior=beh)
        u = scenes.rand_unit(ctx)
        ray = sut.Ray(np.array(madd(pos, 2 * D, u)), np.array(neg(u)))
        refused(ctx, "unknown behaviour of a compound", lambda: ray.run(5 * D, optic_list=[c]), repr(beh))
    elif which == 5:
        ray = sut.Ray(a(pos), a(n))
        path = np.array(ray.get_plot_repr())
        call = ctx.pick([lambda: ray.fly(), lambda: ray.fly(None), lambda: ray.fly(distance=None)])
        refused(ctx, "flight of no distance", call, "fly()")
        ctx.check(np.array_equal(ray.get_plot_repr(), path) and np.array_equal(ray.position, path[-1]), "a refused flight moved the ray")
    elif which == 6:
        ray = sut.Ray(a(pos), a(n))
        kind = ctx.pick(["", "specular", "mirror", "Grating", None, "snell"])
        refused(ctx, "unknown kind of reflection", lambda: ray.reflect(reflect_type=kind, normal=a(n), intersection_pt=a(pos)), repr(kind))
        ctx.check(dist(tuple(map(float, ray.direction)), unit(n)) < 1e-12, "a refused reflection turned the ray")
    else:
        ray = sut.Ray(a(pos), a(n))
        kind = ctx.pick(["", "thinlens", "Snell", None, "ideal", "specular_flat"])
        el = E.IdealLens(pos, n, D, 2 * D, "ideal", style=st).build(sut)
        refused(ctx, "unknown kind of refraction", lambda: ray.refract(refract_type=kind, normal=a(n), optic=el, intersection_pt=a(pos), eta1=1.0, eta2=1.5), repr(kind))
        ctx.check(dist(tuple(map(float, ray.direction)), unit(n)) < 1e-12, "a refused refraction turned the ray")
    ctx.seen(which, bad)


def sizes_needed(ctx):
    """round optics without a diameter"""
    st, pos, n, t = pose(ctx)
    a = lambda v: E.arr(v, st)
    make = {"round mirror": lambda: sut.Mirror(a(pos), normal=a(n)),
            "concave mirror": lambda: sut.Mirror(a(pos), shape="circular_concave_spherical", normal=a(n), f=10.0),
            "ball mirror": lambda: sut.Mirror(a(pos), shape="circular_convex_spherical"),
            "ideal lens": lambda: sut.Lens(a(pos), a(n), type="ideal", f=10.0),
            "ball lens": lambda: sut.Lens(a(pos), shape="spherical", index=1.5)}
    kind = ctx.pick(sorted(make))
    ctx.desc = {"kind": kind}
    refused(ctx, "round optic without a diameter", make[kind], kind)
    ctx.seen(kind, pos)


PROP = Prop(
    "C26",
    "spheres, circles, cylinders, rectangles, mirrors, lenses, gratings, detectors and compounds in random and whole-number poses with missing, "
    "negative, conflicting or skew specifications and unknown names (which must be refused) and with consistent ones (which must be accepted, and be "
    "the same solid however the size was given)",
    [Family("solids", solids, 4000), Family("plates", plates, 6000), Family("shapes", shapes, 4000), Family("sizes-needed", sizes_needed, 500, 3000)],
    required=["refused: " + k for k in ("neither radius nor diameter", "conflicting radius and diameter", "a size of nothing next to another", "side missing", "negative side", "tangent out of the plane",
                                        "unknown shape of a mirror", "unknown shape of a lens", "unknown shape of a grating or detector",
                                        "unknown behaviour of a compound", "flight of no distance", "unknown kind of reflection", "unknown kind of refraction",
                                        "round optic without a diameter")] +
    ["accepted: " + k for k in ("radius or diameter", "rectangle", "mirror", "grating", "detector")] + ["solids compared by radius and by diameter"],
    assumptions=["conflicts below 3e-6 relative and tangents leaning by less than 1e-6 are not required to be refused; agreement within 1e-12 must be accepted"])
