"""C14 what curved mirrors do to whole beams: focus, centre of curvature, conserved impact parameter, polygons in a ball."""
import math

import numpy as np

from ..core import Prop, Family, Skip
from ..common import *
from .. import sut, scenes, elements as E, v3
from ..v3 import *


def concave(ctx):
    S = ctx.logu(1, 100)
    st = "float"
    if ctx.chance(0.3):
        pos = tuple(float(ctx.i(-30, 30)) for _ in range(3))
        n_raw = ctx.pick(scenes.INT_NORMALS)
        st = ctx.pick(["int", "float"])
    else:
        pos = mul(scenes.rand_unit(ctx), S * ctx.u(0, 5))
        n_raw = scenes.raw(ctx, scenes.rand_unit(ctx))
    D = S * ctx.logu(0.3, 2)
    f = D * (ctx.u(0.6, 5) if ctx.chance(0.7) else ctx.u(0.27, 0.6) if ctx.chance(0.6) else ctx.u(0.05, 0.25))
    if st == "int":
        D, f = float(max(1, round(D))), float(max(1, round(f)))
        ctx.ev("concave mirrors of whole sizes")
    if D > 4 * f:
        ctx.ev("half spheres")
    el = E.ConcaveMirror(pos, n_raw, D, f, style=st)
    o = el.build(sut)
    ctx.desc = {"mirror": el.desc()}
    return S, el, o


def shoot(ctx, o, P, d, far, n=1):
    ray = sut.Ray(E.arr(P, "float"), E.arr(scenes.raw(ctx, d), "float"))
    ray.run(far, optic_list=[o], max_interactions=n)
    return [v3.tup(x) for x in ray.get_plot_repr()], v3.tup(ray.direction)


def on_cap(ctx, el, rmax=0.98):
    """a point of the cap, its distance from the axis and its inward normal"""
    r = min(el.D / 2, el.rc) * math.sqrt(ctx.u(0, rmax * rmax))
    e = v3.rodrigues(v3.any_perp(el.n), el.n, ctx.u(0, 2 * math.pi))
    z = el.rc - math.sqrt(el.rc ** 2 - r * r)
    Q = madd(madd(el.pos, z, el.n), r, e)
    return Q, r, e, z


def beams(ctx):
    S, el, o = concave(ctx)
    C, R, n = el.c, el.rc, el.n
    tol = 1e-9 * (1 + norm(el.pos) + R + S)
    for _ in range(6):
        kind = ctx.pick(["parallel", "from-centre", "from-focus-paraxial", "oblique", "behind", "outside", "inside the dish"])
        Q, r, e, z = on_cap(ctx, el)
        if kind == "parallel":
            s = R * ctx.u(0.05, 3) + el.sag
            P = madd(Q, s, n)
            V, d = shoot(ctx, o, P, neg(n), s + 4 * R)
            ctx.check(len(V) == 2 and dist(V[1], Q) < tol, "a ray parallel to the axis does not meet the cap of radius 2f", path=V,
                      expected=Q)
            th = math.asin(r / R)
            X = madd(C, -R / (2 * math.cos(th)), n)      # where it crosses the axis
            if r > 1e-3 * R:
                miss = norm(perp(sub(X, V[1]), d))
                ctx.check(miss < tol * 10 and (dot(d, n) > 0 or r > 0.7 * R), "a ray parallel to the axis does not cross it at C - R/(2 cos)", at=Q,
                          outgoing=d, crossing=X, miss=miss)
            # the paraxial focus is at f from the vertex
            if r < 0.02 * R:
                F = madd(el.pos, el.f, n)
                ctx.check(norm(perp(sub(F, V[1]), d)) < tol * 10 + r * (r / R) ** 2, "paraxial rays miss the focal point", focus=F,
                          at=Q, outgoing=d)
                ctx.ev("paraxial rays through the focus")
        elif kind == "from-centre":
            k = ctx.u(0.0, 0.9)
            P = add(mul(C, 1 - k), mul(Q, k))
            d0 = unit(sub(Q, C))
            if dot(sub(P, el.pos), n) <= el.sag + 1e-6:
                continue
            V, d = shoot(ctx, o, P, d0, 3 * R)
            ctx.check(len(V) == 2 and dist(V[1], Q) < tol, "a ray from the centre of curvature does not meet the cap", path=V, expected=Q)
            ctx.check(dist(d, neg(d0)) < 1e-9 * (1 + norm(el.pos) / R), "a ray from the centre of curvature does not come back along its path",
                      incoming=d0, outgoing=d)
        elif kind == "inside the dish":
            g = ctx.pick([-1, 1])                          # between the cap and the plane of its vertex or its rim
            P, d0 = madd(Q, -g * z * ctx.logu(1e-3, 0.98), n), mul(n, float(g))
            s = dist(P, Q)
            if s < 1e-5 * (1 + norm(el.pos) + R):
                continue
            V, d = shoot(ctx, o, P, d0, s + R)
            ctx.check(len(V) == 2 and dist(V[1], Q) < tol, "a ray that starts next to the cap does not meet it", path=V, expected=Q)
        elif kind == "from-focus-paraxial":
            r = 0.02 * min(R, el.D) * ctx.u(0, 1)
            Q = madd(madd(el.pos, R - math.sqrt(R * R - r * r), n), r, e)
            a = el.f * (1 if ctx.chance(0.4) else ctx.u(1.3, 4))
            P = madd(el.pos, a, n)
            V, d = shoot(ctx, o, P, sub(Q, P), 10 * R)
            ctx.check(len(V) == 2, "a ray from an axial point does not meet the mirror", path=V)
            h = r
            if a == el.f:
                err = norm(perp(d, n))
                ctx.check(err < 5 * (h / R) ** 3 + 1e-9 * (1 + norm(el.pos) / R), "rays from the focal point do not leave parallel", outgoing=d)
            else:
                b = 1 / (1 / el.f - 1 / a)
                I = madd(el.pos, b, n)
                miss = norm(perp(sub(I, V[1]), d))
                ctx.check(miss < 12 * (1 + b / R) ** 2 * h * (h / R) ** 2 + 1e-8 * (1 + norm(el.pos) + b), "a paraxial pencil does not meet in the "
                          "conjugate point (1/a + 1/b = 1/f)", a=a, b=b, miss=miss, height=h)
        elif kind == "oblique":
            m = unit(sub(C, Q))
            d0 = neg(scenes.around(ctx, m, 0.5))
            s = min(S * ctx.u(0.05, 3), 0.9 * R * dot(neg(d0), m))
            P = madd(Q, -s, d0)
            if el.hit(P, d0, norm(el.pos) + S + 2 * R)[0] != "hit" or dist(madd(P, el.hit(P, d0, norm(el.pos) + S + 2 * R)[1], d0), Q) > tol * 10:
                continue
            V, d = shoot(ctx, o, P, d0, s + R)
            ctx.check(len(V) == 2 and dist(V[1], Q) < tol * 10, "an oblique ray does not meet the cap where it should", path=V, expected=Q)
            b0, b1 = norm(perp(sub(C, P), d0)), norm(perp(sub(C, V[1]), d))
            ctx.check(abs(b0 - b1) < tol * 10, "reflection off a spherical mirror must keep the distance from its centre", before=b0, after=b1)
            pl = cross(sub(Q, C), d0)
            if norm(pl) > 1e-3 * R:
                ctx.check(abs(dot(unit(pl), d)) < 1e-8 * (1 + norm(el.pos) / R), "the reflected ray leaves the plane of incidence")
        elif kind == "behind":
            s = S * ctx.u(0.05, 3)
            P = madd(Q, -s - z - S * 0.01, n)
            V, d = shoot(ctx, o, P, n, 4 * S + 2 * R + s)
            ctx.check(len(V) == 2 and dist(V[1], Q) < tol, "a ray from behind the mirror does not meet its back", path=V, expected=Q)
            ctx.check(dot(d, n) < 0 or r > 0.7 * R, "the back of the mirror let a ray through", outgoing=d)
            th = math.asin(r / R)
            X = madd(C, -R / (2 * math.cos(th)), n)
            ctx.check(norm(perp(sub(X, V[1]), d)) < tol * 10, "the back of the mirror diverges light from the wrong point", outgoing=d, virtual=X)
        else:
            q = el.D / 2 * ctx.u(1.01, 1.6)
            if q > R * 0.98:
                continue
            P = madd(madd(el.pos, q, e), R * ctx.u(0.05, 3) + el.sag, n)
            V, d = shoot(ctx, o, P, neg(n), 6 * R)
            ctx.check(len(V) == 2 and dist(d, neg(n)) < 1e-9 and abs(dist(V[0], V[1]) - 6 * R) < tol, "a ray past the rim was caught", path=V)
        ctx.ev("concave mirror: %s rays" % kind)
        ctx.seen(kind, quant((r / R, R / S)))


def bowl(ctx):
    """round and round in a deep bowl: a chord after a chord until the rim lets the ray out"""
    S = ctx.logu(1, 100)
    R = S * ctx.u(0.5, 2)
    n = scenes.rand_unit(ctx)
    D = 2 * R * math.sin(ctx.u(0.5, 1.55))
    el = E.ConcaveMirror(mul(scenes.rand_unit(ctx), S * ctx.u(0, 3)), scenes.raw(ctx, n), D, R / 2)
    o = el.build(sut)
    C, n = el.c, el.n
    w = unit(add(v3.rodrigues(v3.any_perp(n), n, ctx.u(0, 2 * math.pi)), mul(n, ctx.u(-1, 1) * ctx.pick([0.0, 0.3, 3.0]))))
    u = perp(neg(n), w)                        # the plane of the chords, through the centre
    if norm(u) < 0.3:
        return
    u = unit(u)

    def point(a):
        return madd(madd(C, R * math.cos(a), u), R * math.sin(a), w)

    def rim(Q):
        """how far inside the mirror the point is"""
        v = sub(Q, el.pos)
        return min(D / 2 - norm(perp(v, n)), R - dot(v, n))

    step = ctx.pick([-1, 1]) * ctx.u(0.15, 2.6)
    a = ctx.u(-1.2, 1.2)
    tol = 1e-10 * (1 + norm(el.pos) + R)
    if rim(point(a)) < 1e-3 * R:
        return
    P = add(mul(point(a - step), 0.5), mul(point(a), 0.5))
    want = [P]
    ok = True
    for k in range(60):
        Q = point(a)
        h = rim(Q)
        if abs(h) < 1e-4 * R:
            return
        if h < 0:
            break
        want.append(Q)
        a += step
    if len(want) < 3 and ctx.chance(0.7):
        return
    # what the ray meets after the rim let it out: nothing, for the rest of its line lies outside the sphere
    ray = sut.Ray(E.arr(P, "float"), E.arr(scenes.raw(ctx, unit(sub(want[1], P))), "float"))
    far = sum(dist(x, y) for x, y in zip(want, want[1:]))
    open_end = h < 0
    # a chord that leaves through the opening may meet the bowl's own edge on its way out of the sphere? no: it ends at Q, which is off the mirror
    ray.run(far + (5 * R if open_end else 0.5 * dist(point(a), want[-1])), optic_list=[o])
    V = [v3.tup(x) for x in ray.get_plot_repr()]
    ctx.check(len(V) == len(want) + 1, "a ray in a bowl is reflected %d times, not %d times" % (len(V) - 2, len(want) - 1), path=V, expected=want)
    for k, (x, y) in enumerate(zip(V, want)):
        ctx.check(dist(x, y) < tol * (1 + k), "reflection %d in a bowl is off" % k, got=x, expected=y)
    ctx.ev("concave mirror: reflections in a bowl", len(want) - 1)
    if len(want) > 2:
        ctx.ev("concave mirror: met again from inside")
    ctx.seen(len(want), quant((step, a)))


def ball_outside(ctx):
    """a ball mirror from outside: the convex mirror law, virtual focus at R/2, impact parameter kept"""
    S = ctx.logu(1, 100)
    c = mul(scenes.rand_unit(ctx), S * ctx.u(0, 3))
    R = S * ctx.u(0.3, 2)
    whole = ctx.chance(0.2)
    if whole:
        c, R = tuple(float(round(x)) for x in c), max(1, round(2 * R)) / 2
        ctx.ev("ball mirrors of whole diameter")
    d = scenes.rand_unit(ctx)
    e = v3.rodrigues(v3.any_perp(d), d, ctx.u(0, 2 * math.pi))
    b = R * ctx.u(0, 0.99)
    q = R * (ctx.u(1.1, 6) if ctx.chance(0.7) else 10.0 ** ctx.u(0.8, 5.3))
    P = madd(madd(c, b, e), -q, d)
    el = E.BallMirror(c, 2 * R, style="int" if whole else "float")
    ctx.desc = {"ball": el.desc(), "P": P, "d": d}
    V, out = shoot(ctx, el.build(sut), P, d, q + 20 * R)
    th = math.asin(b / R)
    Q = madd(madd(c, b, e), -R * math.cos(th), d)
    far = 2e-14 * (q / R) ** 2                   # what rounding makes of the sphere, relatively, from there
    if far > 1e-4 * math.cos(th) ** 2:
        raise Skip("too far away for rounding")
    tol = (1e-9 * (1 + norm(c) + 6 * R) + far * R) / max(0.05, math.cos(th))
    ctx.check(len(V) == 2 and dist(V[1], Q) < tol, "a ray does not meet the near side of a ball mirror", path=V, expected=Q)
    want = add(mul(neg(d), math.cos(2 * th)), mul(e, math.sin(2 * th)))
    ctx.check(dist(out, want) < (1e-8 + far) / max(0.05, math.cos(th)), "a ball mirror scatters by the wrong angle (pi - 2 asin(b/R))", got=out, expected=want)
    ctx.ev("ball mirror: outside")
    if q > 1e3 * R:
        ctx.ev("ball mirror: from afar")
    ctx.seen(quant((b / R,)))


def ball_inside(ctx):
    """inside a ball mirror a ray runs along a regular polygon: the k-th vertex is known in closed form"""
    S = ctx.logu(1, 50)
    c = mul(scenes.rand_unit(ctx), S * ctx.u(0, 3))
    R = S * ctx.u(0.3, 2)
    ex = scenes.rand_unit(ctx)
    ey = v3.rodrigues(v3.any_perp(ex), ex, ctx.u(0, 6.3))
    inc = ctx.u(0, 1.35)                        # angle of incidence
    N = ctx.i(10, 200)
    el = E.BallMirror(c, 2 * R)
    ctx.desc = {"ball": el.desc(), "incidence": inc, "bounces": N}
    # chord from angle 0 (behind) to angle pi - 2 inc
    turn = math.pi - 2 * inc
    A0 = madd(c, R, ex)
    A1 = madd(madd(c, R * math.cos(turn), ex), R * math.sin(turn), ey)
    d = unit(sub(A1, A0))
    P = add(mul(A0, 0.5), mul(A1, 0.5)) if ctx.chance(0.7) else add(mul(A0, 0.9), mul(A1, 0.1))
    ray = sut.Ray(E.arr(P, "float"), E.arr(d, "float"))
    ray.run(2 * R * (N + 3), optic_list=[el.build(sut)], max_interactions=N)
    V = [v3.tup(x) for x in ray.get_plot_repr()]
    ctx.check(len(V) == N + 1, "%d reflections asked for inside a closed ball, %d made" % (N, len(V) - 1))
    for k in range(1, N + 1):
        a = turn * k
        W = madd(madd(c, R * math.cos(a), ex), R * math.sin(a), ey)
        ctx.check(dist(V[k], W) < 1e-10 * (1 + norm(c) + R) * (10 + k * k * 0.1 + 10 * k) / max(0.1, math.cos(inc)), "the %d-th vertex inside a ball mirror is off the regular "
                  "polygon" % k, got=V[k], expected=W, error=dist(V[k], W))
    ctx.ev("ball mirror: reflections inside", N)
    ctx.seen(quant((inc,)), N)


def whispering(ctx):
    """a ball mirror seen along its wall: many grazing hops, each a short chord"""
    R = ctx.logu(0.05, 2)
    c = mul(scenes.rand_unit(ctx), R * ctx.u(0, 1))
    ex = scenes.rand_unit(ctx)
    ey = v3.rodrigues(v3.any_perp(ex), ex, ctx.u(0, 6.3))
    cos = 10.0 ** ctx.u(-4, -0.7)               # the cosine of the angle of incidence
    N = ctx.i(3, 40)
    b = R * math.sqrt(1 - cos * cos)
    el = E.BallMirror(c, 2 * R)
    ctx.desc = {"ball": el.desc(), "cosine of incidence": cos, "bounces": N}
    ray = sut.Ray(E.arr(madd(c, b, ex), "float"), E.arr(ey, "float"))
    ray.run(2 * R * cos * (N + 3), optic_list=[el.build(sut)], max_interactions=N)
    V = [v3.tup(x) for x in ray.get_plot_repr()]
    ctx.check(len(V) == N + 1, "%d grazing reflections asked for inside a closed ball, %d made" % (N, len(V) - 1))
    half = math.asin(cos)
    tol = min(1e-13 * (1 + R) * N * N / cos ** 2, 0.1 * R * cos) + 1e-12
    for k in range(1, N + 1):
        a = half * (2 * k - 1)
        W = madd(madd(c, R * math.cos(a), ex), R * math.sin(a), ey)
        ctx.check(dist(V[k], W) < tol and abs(dist(V[k], c) - R) < 1e-9, "hop %d along the wall of a ball mirror is off" % k, got=V[k],
                  expected=W, error=dist(V[k], W))
    ctx.ev("ball mirror: steps along the wall", N)
    ctx.seen(quant((cos, R)), N)


PROP = Prop(
    "C14",
    "concave mirrors (f/D 0.05 (half spheres) to 5, random and whole-number poses) met by parallel beams, rays from the centre, from axial points, "
    "oblique, from behind, from next to the cap and past the rim, and rays that go round in deep bowls; ball mirrors met from outside, up to 200 reflections inside, and short hops along the wall; closed-form oracles",
    [Family("concave", beams, 10000),
     Family("bowl", bowl, 8000),
     Family("ball-outside", ball_outside, 8000),
     Family("ball-inside", ball_inside, 600, 6000),
     Family("whispering", whispering, 1500, 10000),
     Family("scenes", scene_case(["concave", "ballmirror", "concave", "mirror", "inert"], ("mirror",)), 5000)],
    required=["half spheres", "concave mirrors of whole sizes", "ball mirrors of whole diameter"] + ["concave mirror: %s rays" % k for k in ("parallel", "from-centre", "from-focus-paraxial", "oblique", "behind", "outside", "inside the dish")] +
    ["concave mirror: reflections in a bowl", "concave mirror: met again from inside", "ball mirror: outside", "ball mirror: from afar", "ball mirror: reflections inside", "ball mirror: steps along the wall", "paraxial rays through the focus"],
    assumptions=RAY_ASSUMPTIONS)
