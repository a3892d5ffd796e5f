"""C11 spheres and cylinders: crossings ahead, nearest first, inward normals, parity = inside."""
import math

import numpy as np

from ..core import Prop, Family
from ..common import *
from .. import sut, scenes, elements as E, v3
from ..v3 import *


def touch(ctx, what, leaf, P, d, t, r, L):
    """a line that just touches, or just does not: both answers are right, but what is reported has to be there"""
    e = leaf.err(P) * 30 + 1e-11 * (1 + L)
    off = 4e-3 * leaf.R / math.sqrt(max(1e-4, 1 - leaf_along(leaf, d) ** 2)) + math.sqrt(e * (leaf.R + L)) + e
    ctx.check(len(r) == 6, "test_intersect of a solid must report (hit, p1, p2, n1, n2, count)", got=r)
    hit, p1, p2, n1, n2, count = r
    ctx.check(bool(hit) == (p1 is not None) and (p1 is not None or p2 is None) and (p1 is None) == (n1 is None) and (p2 is None) == (n2 is None),
              "%s: a line that touches is reported in part" % what, got=r)
    if t < -off:
        ctx.check(not hit, "%s: touched behind the ray, but reported as ahead" % what, got=r, touches_at=t)
    for p, nn in ((p1, n1), (p2, n2)):
        if p is None:
            continue
        p, nn = v3.tup(p), v3.tup(nn)
        s = dot(sub(p, P), d)
        ctx.check(s > 0 and norm(perp(sub(p, P), d)) < e and abs(s - t) < off, "%s: a point where a line touches is not on the line ahead, next to where "
                  "it comes nearest" % what, got=p, nearest=madd(P, t, d), allowed=off)
        ctx.check(abs(leaf.sd(p)) < e + 1e-5 * leaf.R, "%s: a point where a line touches is not on the surface" % what, got=p)
        ctx.check(abs(norm(nn) - 1) < 1e-9 and dist(nn, neg(leaf.out_normal(p))) < (e + 1e-5 * leaf.R) / leaf.R + 1e-9,
                  "%s: the normal where a line touches is not the unit normal towards the inside" % what, got=nn)
    if p1 is not None and p2 is not None:
        ctx.check(dot(sub(p2, p1), d) > -e, "%s: the farther of two crossings comes first" % what, got=r)
    ctx.ev("%s: touching lines" % what)
    ctx.note("touching lines reported", int(bool(hit)))


def leaf_along(leaf, d):
    return dot(d, leaf.a) if hasattr(leaf, "a") else 0.0


def judge(ctx, what, obj, leaf, P, d, r, L):
    st, t0, t1 = leaf.ts(P, d)
    if st == "amb":
        if t0 is None:
            ctx.skip("close to the axis direction")
        else:
            touch(ctx, what, leaf, P, d, t0, r, L)
        return
    ctx.check(len(r) == 6, "test_intersect of a solid must report (hit, p1, p2, n1, n2, count)", got=r)
    hit, p1, p2, n1, n2, count = r
    if st == "miss":
        ctx.check(not hit and p1 is None and p2 is None and count % 2 == 0, "%s: a line passing by is reported as crossing" % what,
                  got=r)
        ctx.ev("%s: passing by" % what)
        return
    ts = [t for t in (t0, t1)]
    if any(1e-10 * (1 + L) < abs(t) < 1e-7 * (1 + L) for t in ts):
        ctx.skip("starts next to the surface")
        return
    ahead = [t for t in ts if t > 1e-10 * (1 + L)]
    on = [t for t in ts if abs(t) <= 1e-10 * (1 + L)]
    got = [p for p in (p1, p2) if p is not None]
    # error of the quadratic and of its root
    e = leaf.err(P) * 30 * leaf.R / (abs(t1 - t0) / 2) / max(1e-12, 1 - leaf_along(leaf, d) ** 2) + 1e-12 * (1 + L)
    e = e * (1 + abs(t1 - t0) / leaf.R)
    ctx.check(bool(hit) == bool(ahead), "%s: %d crossings ahead, but hit is %s" % (what, len(ahead), hit), got=r, expected_t=ahead)
    ctx.check(len(got) == len(ahead) and (p1 is not None or p2 is None),
              "%s: %d crossings ahead, %d reported" % (what, len(ahead), len(got)), got=r, expected_t=ahead)
    for p, nn, t in zip(got, (n1, n2), sorted(ahead)):
        p, nn = v3.tup(p), v3.tup(nn)
        q = madd(P, t, d)
        ctx.check(dist(p, q) < e, "%s: a reported crossing is off, or not the nearer one first" % what, got=p, expected=q,
                  tolerance=e)
        ctx.check(abs(norm(nn) - 1) < 1e-9 and dist(nn, neg(leaf.out_normal(q))) < e / leaf.R + 1e-9,
                  "%s: the normal at a crossing is not the unit normal towards the inside" % what, got=nn,
                  expected=neg(leaf.out_normal(q)))
        ctx.ev("%s: crossings" % what)
    if not on:
        ctx.check(int(count) % 2 == len(ahead) % 2, "%s: the parity of the count does not tell inside from outside" % what,
                  got=count, ahead=len(ahead))
        ctx.ev("%s: started %s" % (what, "inside" if len(ahead) == 1 else "outside"))
    else:
        ctx.ev("%s: started on the surface" % what)


def near_axis(ctx):
    x = ctx.pick(scenes.AXES)
    return unit(madd(x, 10.0 ** ctx.u(-9, -0.7), v3.rodrigues(v3.any_perp(x), x, ctx.u(0, 6.3))))


def far(ctx):
    """solids seen from hundreds to a million of their radii away: still hit where they are, and missed where they are not"""
    R = ctx.logu(0.01, 10)
    what = ctx.pick(["sphere", "sphere", "cylinder"])
    c = mul(scenes.rand_unit(ctx), R * ctx.u(0, 8))
    a = scenes.rand_unit(ctx) if ctx.chance(0.7) else near_axis(ctx)
    if what == "sphere":
        leaf, obj = E.SphereLeaf(c, R), sut.Sphere(E.arr(c, "float"), R=R)
    else:
        leaf, obj = E.CylLeaf(c, a, R), sut.InfiniteCylinder(E.arr(c, "float"), E.arr(a, "float"), D=2 * R)
    for _ in range(8):
        q = R * 10.0 ** ctx.u(2, 6)
        d = scenes.rand_unit(ctx)
        if what == "cylinder" and norm(perp(d, leaf.a)) < 0.3:
            continue
        foot = madd(c, R * ctx.u(-5, 5), leaf.a) if what == "cylinder" else c
        side = unit(cross(d, leaf.a)) if what == "cylinder" else v3.rodrigues(v3.any_perp(d), d, ctx.u(0, 6.3))
        k = ctx.u(-0.98, 0.98) if ctx.chance(0.6) else ctx.pick([-1, 1]) * (1 + 10.0 ** ctx.u(-1.5, 2))
        ahead = ctx.chance(0.8)
        P = madd(madd(foot, k * R, side), -q if ahead else q, d)
        ctx.desc = {"solid": leaf.desc(), "P": P, "d": d}
        ray = sut.Ray(E.arr(P, "float"), E.arr(d, "float"))
        if leaf.err(P) > 1e-4 * R:
            continue
        r = obj.test_intersect(ray)
        ctx.check(bool(r[0]) == (ahead and abs(k) < 1), "%s: a line at %g radii from the middle, %g radii %s, is said to %s" % (
            what, abs(k), q / R, "away" if ahead else "past", "hit" if r[0] else "miss"), got=r)
        if r[0]:
            mid = madd(madd(foot, k * R, side), 0.0, d)
            half = R * math.sqrt(1 - k * k) / (1.0 if what == "sphere" else norm(perp(d, leaf.a)))
            e = leaf.err(P) * 100 / math.sqrt(1 - k * k) + 1e-12 * R + 1e-14 * q
            if what == "cylinder":
                e *= 10
            ctx.check(r[2] is not None and int(r[5]) % 2 == 0 and dist(v3.tup(r[1]), madd(mid, -half, d)) < e and
                      dist(v3.tup(r[2]), madd(mid, half, d)) < e, "%s: crossings seen from far away are off" % what, got=r,
                      expected=[madd(mid, -half, d), madd(mid, half, d)], tolerance=e)
        ctx.ev("%s: seen from afar, %s" % (what, "met" if r[0] else "not met"))
        ctx.seen(what, ahead, abs(k) < 1, round(math.log10(q / R)))


def hairs(ctx):
    """lines that only just cut a solid, or only just pass it: as long as rounding tells the two apart, they are told apart"""
    R = ctx.logu(0.05, 100)
    what = ctx.pick(["sphere", "cylinder"])
    c = mul(scenes.rand_unit(ctx), R * ctx.u(0, 1))
    a = scenes.rand_unit(ctx) if ctx.chance(0.7) else near_axis(ctx)
    if what == "sphere":
        obj = sut.Sphere(E.arr(c, "float"), R=R)
    else:
        obj = sut.InfiniteCylinder(E.arr(c, "float"), E.arr(a, "float"), D=2 * R)
    for _ in range(8):
        d = scenes.rand_unit(ctx)
        sin = 1.0
        foot, side = c, v3.rodrigues(v3.any_perp(d), d, ctx.u(0, 6.3))
        if what == "cylinder":
            sin = norm(perp(d, a))
            if sin < 0.3:
                continue
            foot, side = madd(c, R * ctx.u(-2, 2), a), mul(unit(cross(d, a)), ctx.pick([1.0, -1.0]))
        k = 10.0 ** ctx.u(-11, -4.5)
        cut = ctx.chance(0.6)
        h = R * math.sqrt(2 * k) / sin               # half of the chord
        near = ctx.chance(0.3)
        x = h * ctx.u(1.5, 4) if near else R * ctx.u(0.1, 4)
        ahead = ctx.chance(0.7)
        if x < h * 1.4 or x - h < 1e-7:
            continue
        mid = madd(foot, R * (1 - k if cut else 1 + k), side)
        P = madd(mid, -x if ahead else x, d)
        r = obj.test_intersect(sut.Ray(E.arr(P, "float"), E.arr(scenes.raw(ctx, d), "float")))
        ctx.desc = {"solid": repr((what, c, a, R)), "P": P, "d": d}
        want = cut and ahead
        ctx.check(bool(r[0]) == want, "%s: a line that %s by %.1g of its radius %s is said to %s" % (
            what, "cuts it" if cut else "passes it", k, "ahead" if ahead else "behind", "hit" if r[0] else "miss"), got=r)
        ctx.check(int(r[5]) % 2 == 0, "%s: the count for a ray that starts outside must be even" % what, got=r, half_chord=h)
        if want:
            e = 1e-13 * (norm(c) + 6 * R) / math.sqrt(k) / sin
            ctx.check(r[1] is not None and r[2] is not None and dist(v3.tup(r[1]), madd(mid, -h * math.sqrt(1 - k / 2), d)) < e and dist(v3.tup(r[2]), madd(mid, h * math.sqrt(1 - k / 2), d)) < e,
                      "%s: the two crossings of a short chord are off" % what, got=r, expected=[madd(mid, -h, d), madd(mid, h, d)], tolerance=e)
        elif not cut:
            ctx.check(r[1] is None and r[2] is None, "%s: a line passing by is reported as crossing" % what, got=r)
        ctx.ev("%s: hair-thin %s" % (what, "cuts" if want else "misses"))
        ctx.seen(what, cut, ahead, round(math.log10(k)))
    # between the two crossings, on the chord: inside
    if what == "sphere":
        d = scenes.rand_unit(ctx)
        side = v3.rodrigues(v3.any_perp(d), d, ctx.u(0, 6.3))
        k = 10.0 ** ctx.u(-10, -4.5)
        h = R * math.sqrt(2 * k)
        x = h * ctx.u(-0.8, 0.8)
        if h > 1e-6:
            P = madd(madd(c, R * (1 - k), side), x, d)
            r = obj.test_intersect(sut.Ray(E.arr(P, "float"), E.arr(d, "float")))
            ctx.check(bool(r[0]) and int(r[5]) % 2 == 1 and r[2] is None, "a ray that starts inside, on a short chord, meets one crossing", got=r, half_chord=h)
            ctx.ev("short chords from inside")


def axial(ctx):
    """rays almost along the axis of a cylinder: they do meet its wall, far away"""
    R = ctx.logu(0.05, 100)
    c = mul(scenes.rand_unit(ctx), R * ctx.u(0, 8))
    a = scenes.rand_unit(ctx) if ctx.chance(0.6) else ctx.pick([near_axis(ctx), ctx.pick(scenes.AXES)])
    obj = sut.InfiniteCylinder(E.arr(c, "float"), E.arr(scenes.raw(ctx, a), "float"), R=R)
    for _ in range(8):
        s = 10.0 ** ctx.u(-6, -1.7)
        u = v3.rodrigues(v3.any_perp(a), a, ctx.u(0, 6.3))
        side = cross(a, u)
        k = ctx.u(-0.97, 0.97) if ctx.chance(0.7) else ctx.pick([-1, 1]) * ctx.u(1.03, 3)
        d = unit(madd(a if ctx.chance(0.5) else neg(a), s, u))
        s = norm(perp(d, a))
        h = math.sqrt(1 - k * k) if abs(k) < 1 else 0.0
        x = ctx.u(-3, 3) if ctx.chance(0.4) else ctx.u(-0.95, 0.95) * (h or 1)
        if abs(abs(x) - h) < 0.02:
            continue
        P = madd(madd(madd(c, k * R, side), x * R, u), R * ctx.u(-4, 4), a)
        ray = sut.Ray(E.arr(P, "float"), E.arr(d, "float"))
        r = obj.test_intersect(ray)
        want = [t for t in ((-h - x) * R / s, (h - x) * R / s) if t > 0] if abs(k) < 1 else []
        got = [p for p in r[1:3] if p is not None]
        ctx.desc = {"cylinder": [c, a, R], "P": P, "d": d}
        ctx.check(bool(r[0]) == bool(want) and len(got) == len(want) and int(r[5]) % 2 == len(want) % 2,
                  "cylinder: a ray at %.2g to its axis meets its wall %d times, %d reported" % (s, len(want), len(got)), got=r, expected_t=want)
        for p, t in zip(got, want):
            p = v3.tup(p)
            e = 1e-13 * (norm(c) + 10 * R) / s / (h if h else 1.0) * 10
            ctx.check(dist(p, madd(P, t, d)) < e / s and abs(norm(perp(sub(p, c), a)) - R) < e, "cylinder: a crossing of a nearly axial ray "
                      "is off", got=p, expected=madd(P, t, d), angle=s)
        ctx.ev("nearly axial rays: %d crossings" % len(want))
        ctx.seen(len(want), round(math.log10(s)))


def solid(ctx):
    S = ctx.logu(0.5, 200) if ctx.chance(0.8) else 10.0 ** ctx.u(-4, 0)
    what = ctx.pick(["sphere", "cylinder"])
    st = "float"
    c = mul(scenes.rand_unit(ctx), S * ctx.u(0, 8))
    R = S * ctx.logu(0.2, 3)
    a_raw = scenes.raw(ctx, scenes.rand_unit(ctx))
    if ctx.chance(0.35):
        c = tuple(float(ctx.i(-20, 20)) for _ in range(3))
        a_raw = ctx.pick(scenes.INT_NORMALS)
        st = ctx.pick(["int", "float"])
    if ctx.chance(0.25):                             # an axis next to a coordinate axis, or to where R = D = 1 would be
        a_raw = scenes.raw(ctx, near_axis(ctx))
        st = "float"
        ctx.ev("axes next to a coordinate axis")
    kw = ctx.pick([{"R": R}, {"D": 2 * R}, {"R": R, "D": 2 * R}])
    if what == "sphere":
        leaf = E.SphereLeaf(c, R)
        obj = sut.Sphere(E.arr(c, st), **kw)
    else:
        leaf = E.CylLeaf(c, a_raw, R)
        obj = sut.InfiniteCylinder(E.arr(c, st), E.arr(a_raw, st), **kw)
    L = norm(c) + 12 * S + R
    for _ in range(8):
        mode = ctx.pick(["outside", "inside", "surface", "anywhere", "axis"])
        d = scenes.rand_unit(ctx)
        if what == "cylinder":
            foot = madd(c, S * ctx.u(-5, 5), leaf.a)
            rad = v3.rodrigues(v3.any_perp(leaf.a), leaf.a, ctx.u(0, 6.3))
        else:
            foot, rad = c, scenes.rand_unit(ctx)
        if mode == "inside":
            P = madd(foot, R * ctx.u(0, 0.99), rad)
        elif mode == "surface":
            P = madd(foot, R, rad)
        elif mode == "outside":
            T = madd(foot, R * ctx.u(0, 1.3), rad)
            P = madd(T, -(3 * R + S * ctx.u(0, 4)) * ctx.pick([1, 1, -1]), d)
        elif mode == "axis":
            P = madd(foot, R * ctx.u(1.1, 4), rad)
            d = mul(rad, ctx.pick([1.0, -1.0]))
        else:
            P = madd(c, S * ctx.u(0, 5), scenes.rand_unit(ctx))
        if leaf.err(P) > 1e-9:
            continue
        ctx.desc = {"solid": leaf.desc(), "P": P, "d": d}
        ray = sut.Ray(E.arr(P, "float"), E.arr(scenes.raw(ctx, d), "float"), type=ctx.pick(["normal", "normal", "faerie_fire"]))
        judge(ctx, what, obj, leaf, P, unit(d), obj.test_intersect(ray), L)
        ctx.seen(mode)
        # membership of points
        x = madd(foot, R * ctx.pick([ctx.u(0, 3), 1 - 10.0 ** ctx.u(-8, -1), 1 + 10.0 ** ctx.u(-8, -1)]), rad)
        if what == "cylinder" and ctx.chance(0.3):   # far along the cylinder
            s = R * 10.0 ** ctx.u(1, 6) * ctx.pick([-1, 1])
            x = madd(x, s, leaf.a)
            ctx.ev("points far along a cylinder")
        sd = leaf.sd(x)
        if abs(sd) > 1e-13 * (L * 20 + 3 * norm(x)):
            ctx.check(bool(obj.test_point(E.arr(x, "float"))) == (sd < 0), "%s: a point at signed distance %g of the surface is "
                      "reported %s" % (what, sd, "outside" if sd < 0 else "inside"), point=x)
            ctx.ev("%s: points %s" % (what, "inside" if sd < 0 else "outside"))


def lattice(ctx):
    """whole numbers, where tangency and alignment are exact"""
    c = tuple(float(ctx.i(-9, 9)) for _ in range(3))
    R = ctx.i(1, 9)
    k = ctx.i(0, 2)
    j = (k + ctx.i(1, 2)) % 3
    s = ctx.pick([1.0, -1.0])
    what = ctx.pick(["tangent-behind", "tangent-ahead", "parallel", "through"])
    style = ctx.pick(["int", "float"])
    e = [tuple(1.0 if i == m else 0.0 for i in range(3)) for m in range(3)]
    sph = sut.Sphere(E.arr(c, style), R=R)
    m = 3 - k - j
    cyl = sut.InfiniteCylinder(E.arr(c, style), E.arr(e[m], style), R=R)
    ctx.desc = {"c": c, "R": R, "along": k, "off": j, "what": what}
    if what == "tangent-behind":
        P = madd(madd(c, s * R, e[j]), float(ctx.i(1, 9)), e[k])
        ray = sut.Ray(E.arr(P, style), E.arr(e[k], style))
        for o in (sph, cyl):
            r = o.test_intersect(ray)
            ctx.check(not r[0] and r[1] is None, "a tangent point behind the ray is reported as ahead", got=r, P=P)
        ctx.ev("tangent points behind")
    elif what == "tangent-ahead":
        R = ctx.pick([R, R, 1, 2, 4, 8])
        t = float(ctx.i(1, 9))
        P = madd(madd(c, s * R, e[j]), -t, e[k])
        ray = sut.Ray(E.arr(P, style), E.arr(e[k], style))
        for name, leaf in (("sphere", E.SphereLeaf(c, float(R), style)), ("cylinder", E.CylLeaf(c, e[m], float(R), style))):
            touch(ctx, name, leaf, P, e[k], t, leaf.build(sut).test_intersect(ray), norm(P) + R)
    elif what == "parallel":
        off = ctx.i(0, 12)
        if off == R:
            off += 1
        P = madd(madd(c, float(off), e[j]), float(ctx.i(-9, 9)), e[m])
        ray = sut.Ray(E.arr(P, style), E.arr(mul(e[m], s), style))
        r = cyl.test_intersect(ray)
        ctx.check(not r[0] and r[1] is None, "a ray parallel to a cylinder's axis is reported to meet it", got=r, P=P)
        ctx.ev("rays parallel to a cylinder")
    else:
        P = madd(c, -s * float(ctx.i(0, 15)), e[k])
        ray = sut.Ray(E.arr(P, style), E.arr(mul(e[k], s), style))
        x = dot(sub(c, P), mul(e[k], s))
        want = [t for t in (x - R, x + R) if t > 0]
        for name, o in (("sphere", sph), ("cylinder", cyl)):
            r = o.test_intersect(ray)
            if x == R:
                continue
            got = [p for p in r[1:3] if p is not None]
            ctx.check(len(got) == len(want) and all(dist(v3.tup(g), madd(P, t, mul(e[k], s))) < 1e-9 for g, t in zip(got, want)),
                      "%s: crossings through the centre are wrong" % name, got=r, expected_t=want, P=P)
        ctx.ev("rays through the centre")
    ctx.seen(what)


PROP = Prop(
    "C11",
    "spheres and infinite cylinders in random and whole-number poses; rays from outside, inside, on the surface, away from it; "
    "oracle: the quadratic solved relative to the foot point; crossings ahead, nearest first, inward unit normals, parity of the "
    "count, and point membership down to 1e-8 relative of the surface",
    [Family("solids", solid, 10000), Family("lattice", lattice, 6000), Family("far", far, 4000), Family("axial", axial, 4000), Family("hairs", hairs, 5000)],
    required=["sphere: crossings", "cylinder: crossings", "sphere: passing by", "cylinder: passing by", "sphere: started inside",
              "cylinder: started inside", "sphere: started on the surface", "sphere: points inside", "cylinder: points inside",
              "sphere: touching lines", "cylinder: touching lines", "tangent points behind", "rays parallel to a cylinder", "rays through the centre", "axes next to a coordinate axis", "sphere: seen from afar, met", "sphere: seen from afar, not met", "cylinder: seen from afar, met", "cylinder: seen from afar, not met",
              "points far along a cylinder", "nearly axial rays: 0 crossings", "nearly axial rays: 1 crossings", "nearly axial rays: 2 crossings", "sphere: hair-thin cuts", "cylinder: hair-thin cuts",
              "sphere: hair-thin misses", "cylinder: hair-thin misses", "short chords from inside"],
    assumptions=["lines within 1e-5 (relative) of tangency are judged by the hair-thin family only (down to 1e-11); no outcome is demanded for lines within 1e-6 rad of a cylinder's "
                 "axis unless exactly parallel, or for starts 1e-10..1e-7 off the surface"])
