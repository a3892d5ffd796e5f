"""C30 what glass bodies do to whole beams: foci, conserved invariants, guided light, conserved etendue."""
import math

import numpy as np

from ..core import Prop, Family, Skip
from ..common import *
from ..trace import run_monitored, nearest
from .. import sut, scenes, elements as E, v3
from ..v3 import *


def fire(ctx, optics, P, d, far, n=math.inf):
    ray = sut.Ray(np.array(P), np.array(scenes.raw(ctx, d)), wavelength=ctx.u(300, 1500))
    kw = {} if n == math.inf else {"max_interactions": n}
    ray.run(far, optic_list=optics, **kw)
    V = [v3.tup(x) for x in ray.get_plot_repr()]
    return V, v3.tup(ray.direction)


def segs(V):
    return [unit(sub(b, a)) for a, b in zip(V, V[1:])]


def ball_of_glass(ctx, c, R, n):
    """the same ball three ways"""
    k = ctx.pick(["lens", "compound", "compound"])
    if k == "lens":
        return k, E.BallLens(c, 2 * R, n).build(sut)
    leaf = E.SphereLeaf(c, R)
    return k, E.CompoundEl(leaf, "refract", n).build(sut)


def ball(ctx):
    """a ray at height h: deviation 2(asin(h/R) - asin(h/nR)), crossing the axis at h / sin(deviation) from the centre"""
    S = ctx.logu(0.5, 100)
    R = S
    c = mul(scenes.rand_unit(ctx), S * ctx.u(0, 20))
    n = ctx.u(1.02, 2.6)
    k, o = ball_of_glass(ctx, c, R, n)
    d = scenes.rand_unit(ctx)
    e = v3.rodrigues(v3.any_perp(d), d, ctx.u(0, 2 * math.pi))
    ctx.desc = {"ball": k, "centre": c, "R": R, "index": n, "direction": d}
    tol = 1e-9 * (1 + norm(c) + R)
    for h in [R * ctx.u(0.02, 0.99), R * ctx.u(0.02, 0.9), R * ctx.logu(1e-3, 2e-2), R * (1 - 10.0 ** ctx.u(-7.5, -2.5))]:
        P = madd(madd(c, h, e), -R * ctx.logu(1.2, 10), d)
        V, out = fire(ctx, [o], P, d, dist(P, c) + 60 * R)
        ctx.check(len(V) == 4, "a ray through a ball of glass must meet it twice", path=V, height=h)
        dev = 2 * (math.asin(h / R) - math.asin(h / (n * R)))
        want = v3.rodrigues(d, cross(e, d), -dev)
        if dot(want, e) > dot(d, e):
            want = v3.rodrigues(d, cross(e, d), dev)
        amp = 1 / math.sqrt(max(1e-12, 1 - (h / R) ** 2))
        ctx.check(dist(out, want) < 1e-10 * amp * (1 + norm(c) / R) * 100, "a ball of glass turns the ray through the wrong angle", height=h, got=out, expected=want)
        b = norm(perp(sub(V[2], c), out))
        ctx.check(abs(b - h) < tol * 10 * amp, "a ball of glass must keep the ray's distance from its centre", before=h, after=b)
        mid = segs(V)[1]
        bi = norm(perp(sub(V[1], c), mid))
        ctx.check(abs(n * bi - h) < tol * 20 * amp, "inside a ball of glass the index times the distance from the centre must be that outside", inside=bi, outside=h, index=n)
        X = madd(c, h / math.sin(dev), d)
        miss = norm(perp(sub(X, V[2]), out))
        ctx.check(miss < tol * 20 * amp / max(1e-3, math.sin(dev)) , "the ray does not cross the axis where a ball lens sends it", crossing=X, miss=miss, height=h)
        if h < 2e-2 * R:
            F = n * R / (2 * (n - 1))
            ctx.check(abs(h / math.sin(dev) - F) < 2 * F * (h / R) ** 2, "oracle: focal length")
            miss = norm(perp(sub(madd(c, F, d), V[2]), out))
            ctx.check(miss < 20 * tol + 5 * h * (h / R) ** 2, "paraxial rays miss the focal point of a ball lens, n R / (2 (n - 1)) from its centre", miss=miss, focal_length=F)
            ctx.ev("paraxial rays through a ball lens's focus")
        ctx.ev("rays through a ball of glass (%s)" % k)
        ctx.seen(k, quant((n, h / R)))


def singlet(ctx):
    """biconvex and meniscus lenses made of two spheres: the lensmaker's equation for a thick lens"""
    S = ctx.logu(0.5, 50)
    c = mul(scenes.rand_unit(ctx), S * ctx.u(0, 5))
    a = scenes.rand_unit(ctx)
    n = ctx.u(1.2, 2.2)
    kind = ctx.pick(["biconvex", "biconvex", "meniscus", "biconvex-union"])
    if kind.startswith("biconvex"):
        R1, R2 = S * ctx.logu(1, 6), S * ctx.logu(1, 6)
        T = min(R1, R2) * ctx.u(0.1, 0.8)
        A = E.SphereLeaf(madd(c, R1 - T / 2, a), R1)          # front face, at c - T/2 a
        B = E.SphereLeaf(madd(c, -(R2 - T / 2), a), R2)
        tree = ("intersect", A, B) if ctx.chance(0.5) else ("intersect", B, A)
        r1, r2 = R1, -R2
    else:
        R1 = S * ctx.logu(1, 3)
        R2 = R1 * ctx.u(1.3, 4)                                # front face steeper: a collecting meniscus
        T = R1 * ctx.u(0.15, 0.6)
        A = E.SphereLeaf(madd(c, R1 - T / 2, a), R1)
        B = E.SphereLeaf(madd(c, T / 2 + R2, a), R2)
        tree = ("difference", A, B)
        r1, r2 = R1, R2
    P_ = (n - 1) * (1 / r1 - 1 / r2 + (n - 1) * T / (n * r1 * r2))
    f = 1 / P_
    if not 0.2 * S < f < 60 * S:
        raise Skip("weak lens")
    bfd = f * (1 - (n - 1) * T / (n * r1))                     # from the back vertex
    ffd = f * (1 + (n - 1) * T / (n * r2))
    o = E.CompoundEl(tree, "refract", n).build(sut)
    e = v3.rodrigues(v3.any_perp(a), a, ctx.u(0, 2 * math.pi))
    ctx.desc = {"kind": kind, "R1": R1, "R2": R2, "T": T, "n": n, "f": f, "bfd": bfd, "centre": c, "axis": a}
    rmin = min(R1, R2, f)
    got = []
    back = ctx.chance(0.5)
    dir_ = neg(a) if back else a
    vertex = madd(c, -T / 2, a) if back else madd(c, T / 2, a)
    focal = ffd if back else bfd
    for h in (0.02 * rmin, 0.01 * rmin):
        P = madd(madd(c, h, e), -3 * S - T, dir_)
        V, out = fire(ctx, [o], P, dir_, 200 * S)
        ctx.check(len(V) == 4, "a ray through a lens must meet it twice", path=V)
        s = -dot(out, e)
        ctx.check(s > 0, "a collecting lens does not bend a ray towards its axis", height=h, outgoing=out)
        s = s / dot(out, dir_)
        y = dot(sub(V[2], c), e)
        z = dot(sub(V[2], vertex), dir_)
        got.append((h / s, z + y / s))
        off = norm(sub(out, madd(mul(dir_, dot(out, dir_)), dot(out, e), e)))
        ctx.check(off < 1e-8 * (1 + norm(c) / S), "a meridional ray leaves its plane", outgoing=out)
    # the aberration is quadratic in the height: extrapolate to the axis
    F, Bf = [(4 * lo - hi) / 3 for hi, lo in zip(*got)]
    ctx.check(abs(F / f - 1) < 2e-4 * (1 + norm(c) / S * 1e-3), "the focal length is not the lensmaker's", got=F, expected=f, raw=got)
    ctx.check(abs(Bf - focal) < 3e-4 * f, "the distance from the lens to its focus is not the lensmaker's", got=Bf, expected=focal, raw=got)
    ctx.ev("focal lengths: " + ("meniscus" if kind == "meniscus" else "biconvex"))
    ctx.ev("focal lengths seen from the %s" % ("back" if back else "front"))
    ctx.seen(kind, quant((n, R1 / R2, T / R1)))


def coaxial(ctx):
    """bodies of revolution on one axis: index times the angular momentum about the axis never changes"""
    S = ctx.logu(0.5, 50)
    c = mul(scenes.rand_unit(ctx), S * ctx.u(0, 5))
    a = scenes.rand_unit(ctx)
    els, z = [], 0.0
    for _ in range(ctx.i(1, 4)):
        n = ctx.u(1.1, 2.0)
        R = S * ctx.u(0.6, 1.6)
        k = ctx.pick(["ball", "mirror ball", "lens", "disc", "bored"])
        z += R * 1.05
        p = madd(c, z, a)
        if k == "ball":
            els.append(E.BallLens(p, 2 * R, n))
        elif k == "mirror ball":
            els.append(E.BallMirror(p, 2 * R))
        elif k == "disc":
            els.append(E.RoundMirror(p, scenes.raw(ctx, a), 2 * R))
        elif k == "lens":
            T = R * ctx.u(0.3, 0.9)
            els.append(E.CompoundEl(("intersect", E.SphereLeaf(madd(p, R - T / 2, a), R), E.SphereLeaf(madd(p, -(R - T / 2), a), R)), "refract", n))
        else:
            els.append(E.CompoundEl(("difference", E.SphereLeaf(p, R), E.CylLeaf(p, scenes.raw(ctx, a), R * ctx.u(0.2, 0.5))), "refract", n))
        z += R * 1.05
    optics = [x.build(sut) for x in els]
    ctx.desc = {"axis": a, "elements": [x.desc() for x in els]}
    for _ in range(4):
        T = add(madd(c, ctx.u(0, z), a), mul(scenes.rand_unit(ctx), S * ctx.u(0, 1)))
        P = add(madd(c, ctx.pick([-1.5 * S, z + 1.5 * S]), a), mul(scenes.rand_unit(ctx), S * ctx.u(0, 1)))
        ray = sut.Ray(np.array(P), np.array(sub(T, P)))
        ray.run(30 * S, optic_list=optics, max_interactions=12)
        V = [v3.tup(x) for x in ray.get_plot_repr()]
        first = None
        amp = 1.0
        for A, B in zip(V, V[1:]):
            if dist(A, B) < 1e-4 * S:
                break
            d = unit(sub(B, A))
            mid = mul(add(A, B), 0.5)
            n = 1.0
            for x in els:
                if x.refractive and x.inside(mid):
                    n = x.index
            m = n * dot(a, cross(sub(A, c), d))
            if first is None:
                first = m
            else:
                ctx.check(abs(m - first) < 1e-7 * amp * (S + norm(c)) , "the skew invariant of a centred system changed along the ray", before=first, now=m,
                          segment=[A, B], path=V)
                ctx.ev("skew invariants compared")
            amp *= 1 + S / max(dist(A, B), 1e-3 * S) * 0.1
        ctx.seen(len(V), quant(V[-1]))


def rod(ctx):
    """a rod of glass guides every ray steeper than the critical angle: forever, at constant pitch and constant skew"""
    R = ctx.logu(0.3, 20)
    c = mul(scenes.rand_unit(ctx), R * ctx.u(0, 5))
    a = scenes.rand_unit(ctx) if ctx.chance(0.7) else ctx.pick(scenes.AXES)
    n = ctx.u(1.2, 2.4)
    el = E.CompoundEl(E.CylLeaf(c, scenes.raw(ctx, a), R), "refract", n)
    o = el.build(sut)
    e1 = v3.any_perp(a)
    e2 = cross(a, e1)
    q = mul(v3.rodrigues(e1, a, ctx.u(0, 2 * math.pi)), R * math.sqrt(ctx.u(0, 0.9)))
    P = add(c, q)
    th = ctx.u(0.15, 1.4)                                     # to the axis
    u = v3.rodrigues(e1, a, ctx.u(0, 2 * math.pi))
    d = add(mul(a, math.cos(th)), mul(u, math.sin(th)))
    b = norm(sub(q, mul(u, dot(q, u))))
    cosi = math.sin(th) * math.sqrt(max(0.0, 1 - (b / R) ** 2))
    sini = math.sqrt(1 - cosi * cosi)
    if cosi < 0.05:
        raise Skip("grazing")
    if abs(n * sini - 1) < 1e-3:
        raise Skip("at the critical angle")
    bounces = ctx.i(5, 60) if ctx.chance(0.95) else ctx.i(100, 400)
    chord = 2 * R * math.sqrt(1 - (b / R) ** 2) / math.sin(th)
    ctx.desc = {"rod": el.desc(), "from": P, "direction": d, "index": n, "incidence": math.degrees(math.asin(sini))}
    V, out = fire(ctx, [o], P, d, chord * (bounces + 200), bounces)
    tol = 1e-11 * (1 + norm(c) + R)
    lax = 1e-8 * (1 + norm(c) / R)
    if n * sini > 1:
        for k, Q in enumerate(V[1:]):
            r = norm(perp(sub(Q, c), a))
            ctx.check(abs(r - R) < tol * (1 + k), "guided light left the rod", vertex=k + 1, radius=r, R=R)
        ctx.check(len(V) == bounces + 1, "guided light does not go on from wall to wall", vertices=len(V), bounces=bounces)
        for k, (A, B) in enumerate(zip(V[1:], V[2:])):
            ctx.check(abs(dist(A, B) - chord) < 100 * tol * (1 + k) / cosi, "guided light does not keep its pitch", step=dist(A, B), expected=chord)
        ctx.check(abs(dot(out, a) - math.cos(th)) < 1e-11 * (1 + bounces) / cosi * (1 + norm(c) / R), "guided light changes its angle to the axis", now=dot(out, a), was=math.cos(th))
        ctx.ev("reflections in a light guide", len(V) - 1)
        ctx.ev("guided rays")
    else:
        ctx.check(len(V) == 3, "light steeper than the critical angle did not leave the rod at the first wall", vertices=len(V))
        ctx.check(abs(dot(out, a) - n * math.cos(th)) < lax, "light leaving a rod must have n times its component along the axis", got=dot(out, a),
                  expected=n * math.cos(th))
        ctx.ev("rays leaving a rod")
    ctx.seen(quant((n, th, b / R)), bounces)


def gallery(ctx):
    """inside a ball of glass: beyond the critical angle the ray runs round for ever on equal chords"""
    R = ctx.logu(0.5, 50)
    c = mul(scenes.rand_unit(ctx), R * ctx.u(0, 5))
    n = ctx.u(1.15, 2.4)
    k, o = ball_of_glass(ctx, c, R, n)
    b = R * (1 / n + (1 - 1 / n) * ctx.u(0.05, 0.97)) if ctx.chance(0.6) else R / n * ctx.u(0, 0.95)
    d = scenes.rand_unit(ctx)
    e = v3.rodrigues(v3.any_perp(d), d, ctx.u(0, 2 * math.pi))
    half = math.sqrt(R * R - b * b)
    if half < 0.05 * R:
        raise Skip("grazing")
    P = madd(madd(c, b, e), half * ctx.u(-0.9, 0.9), d)
    N = ctx.i(5, 80)
    ctx.desc = {"ball": k, "centre": c, "R": R, "index": n, "distance from the centre": b}
    V, out = fire(ctx, [o], P, d, 3 * R * (N + 2), N)
    tol = 1e-12 * (1 + norm(c) + R) * R / half
    if b > R / n:
        ctx.check(len(V) == N + 1, "totally reflected light does not stay in the ball", vertices=len(V), expected=N + 1)
        for i, Q in enumerate(V[1:]):
            ctx.check(abs(dist(Q, c) - R) < tol * (1 + i), "totally reflected light left the ball", vertex=i + 1, distance=dist(Q, c), R=R)
            if i:
                ctx.check(abs(dist(V[i], Q) - 2 * half) < tol * (1 + i), "the chords of totally reflected light are not equal", chord=dist(V[i], Q), expected=2 * half)
        ctx.ev("total reflections in a ball", len(V) - 1)
    else:
        ctx.check(len(V) == 3, "light less oblique than the critical angle did not leave the ball", vertices=len(V))
        bo = norm(perp(sub(V[1], c), out))
        ctx.check(abs(bo - n * b) < tol * 1e6, "light leaving a ball must pass its centre n times further away", got=bo, expected=n * b)
        ctx.ev("rays leaving a ball from inside")
    ctx.seen(k, quant((n, b / R)), N)


def etendue(ctx):
    """the map of rays through mirrors and glass is symplectic: no system concentrates light"""
    sc, shot = scenes.make_scene(ctx, ["mirror", "concave", "ballmirror", "balllens", "compound", "compound_mirror"], n_hits=ctx.i(1, 4), decoys=0)
    optics = sc.build(sut)
    S, L = sc.S, sc.L
    ctx.desc = {"scene": [x.desc() for x in sc.els], "ray": shot.desc()}
    ray = shot.build()
    far = 4 * L
    ray.run(far, optic_list=optics, max_interactions=15)
    V0 = np.array(ray.get_plot_repr(), dtype=float)
    if ray.blocked or len(V0) < 3 or len(V0) > 15:
        raise Skip("nothing met, or too long a path")
    d0, d1 = shot.d, v3.tup(ray.direction)
    a1 = v3.any_perp(d0)
    a2 = cross(d0, a1)
    b1 = v3.any_perp(d1)
    b2 = cross(d1, b1)
    O = v3.tup(V0[-2])
    if any(x.refractive and x.inside(madd(O, 1e-3 * S, d1)) for x in sc.els):
        raise Skip("ends inside glass")
    if any(x.refractive and x.inside(shot.P) for x in sc.els):
        raise Skip("starts inside glass")

    def trace(v):
        x, y, p, q = v
        P = madd(madd(shot.P, x * S, a1), y * S, a2)
        d = madd(madd(mul(d0, math.sqrt(1 - p * p - q * q)), p, a1), q, a2)
        r = sut.Ray(np.array(P), np.array(d), wavelength=shot.wavelength)
        r.run(far, optic_list=optics, max_interactions=15)
        V = np.array(r.get_plot_repr(), dtype=float)
        if len(V) != len(V0) or r.blocked or np.max(np.linalg.norm(V[1:-1] - V0[1:-1], axis=1)) > 0.02 * S:
            raise Skip("the neighbours take another way")
        A, d = v3.tup(V[-2]), v3.tup(r.direction)
        t = dot(sub(O, A), d1) / dot(d, d1)
        w = sub(madd(A, t, d), O)
        return [dot(w, b1) / S, dot(w, b2) / S, dot(d, b1), dot(d, b2)]

    def jac(h):
        J = np.zeros((4, 4))
        for i in range(4):
            v = [0.0] * 4
            v[i] = h
            p = trace(v)
            v[i] = -h
            m = trace(v)
            J[:, i] = (np.array(p) - np.array(m)) / (2 * h)
        return J
    h = 2e-5
    J1, J2 = jac(h), jac(h / 2)
    J = (4 * J2 - J1) / 3
    k = np.linalg.norm(J)
    err = np.linalg.norm(J1 - J2) + 1e-7 * k
    if err * k > 1e-3:
        raise Skip("too chaotic to differentiate")
    W = np.array([[0, 0, 1, 0], [0, 0, 0, 1], [-1, 0, 0, 0], [0, -1, 0, 0]], dtype=float)
    off = float(np.max(np.abs(J.T @ W @ J - W)))
    ctx.check(off < 10 * err * k + 1e-6 * k * k + 1e-5, "the ray map is not symplectic: etendue is not conserved", off=off, jacobian=J, determinant=float(np.linalg.det(J)),
              accuracy=err * k)
    ctx.ev("ray maps differentiated")
    for x in sc.els:
        ctx.counters["~elements in them: " + x.kind] += 1
    ctx.seen(len(V0), quant(J.ravel(), 3))


PROP = Prop(
    "C30",
    "whole beams through glass: balls (as lens and as CSG leaf) at every height and index, thick biconvex and meniscus lenses from both sides, centred systems "
    "with skew rays, light guided by rods and balls over up to 80 reflections, and numerically differentiated ray maps of random scenes; against "
    "closed-form and conservation laws that no single interaction states",
    [Family("ball", ball, 1500), Family("singlet", singlet, 1200), Family("coaxial", coaxial, 1200), Family("rod", rod, 600), Family("gallery", gallery, 1200),
     Family("etendue", etendue, 1000)],
    required=["paraxial rays through a ball lens's focus", "rays through a ball of glass (lens)", "rays through a ball of glass (compound)", "focal lengths: biconvex",
              "focal lengths: meniscus", "skew invariants compared", "guided rays", "rays leaving a rod", "total reflections in a ball", "rays leaving a ball from inside",
              "ray maps differentiated"],
    assumptions=["focal lengths by extrapolating two heights to the axis, to 2e-4; symplecticity only where the numerical derivative is accurate to 1e-3"])
