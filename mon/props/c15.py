"""C15 no preferred place, orientation, handedness, unit of length or way of writing a vector."""
import math

import numpy as np

from ..core import Prop, Family, Skip
from ..common import *
from .. import sut, scenes, elements as E, v3, equiv
from ..v3 import *


def turn(ctx, L, els):
    """a turn about a coordinate axis or an element's own normal, by any angle, also a tiny one, or nearly a right one"""
    q = ctx.u()
    e = ctx.pick(els) if els else None
    if q < 0.3 and e is not None and getattr(e, "n_raw", None) is not None:
        ax = unit(e.n_raw)
    else:
        ax = ctx.pick([(1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (0.0, 0.0, 1.0)])
    a = ctx.u(-math.pi, math.pi)
    if ctx.chance(0.2):
        a = ctx.i(0, 3) * math.pi / 2 + ctx.pick([-1, 1]) * 10.0 ** ctx.u(-9, -1)
    cols = [v3.rodrigues(x, ax, a) for x in ((1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (0.0, 0.0, 1.0))]
    if ax[2] == 1.0 and q >= 0.3:
        cols[2] = ax
    A = tuple(tuple(cols[j][i] for j in range(3)) for i in range(3))
    t = mul(scenes.rand_unit(ctx), L * ctx.u(0, 2)) if ctx.chance(0.3) else (0.0, 0.0, 0.0)
    return equiv.Motion(A, t)


def moved(mode):
    def case(ctx):
        style = "axis" if mode == "lattice" and ctx.chance(0.6) or mode == "turn" and ctx.chance(0.8) else None
        sc, shot = scenes.make_scene(ctx, scenes.ALL, orders=(0, 1, -1), end=ctx.pick([None, "detector"]), n_hits=ctx.i(1, 4), style=style)
        L = sc.L
        md = scenes.budget(ctx, L) if ctx.chance(0.8) else L * ctx.u(0.1, 3)
        optics = sc.build(sut)
        scale = 10.0 ** ctx.u(-3, 3) if mode == "scale" else 1.0
        if mode == "scale" and ctx.chance(0.4):
            scale = ctx.pick([0.25, 0.5, 2.0, 4.0])
        scale = min(scale, max(1.0, 1e4 / L))            # farther out, rounding exceeds the 1e-9 a ray must travel before it can hit
        m = turn(ctx, L, sc.els) if mode == "turn" else equiv.random_motion(ctx, L, rot=mode in ("rotate", "mirror", "scale"), shift=mode != "mirror" or ctx.chance(0.5),
                                mirror=mode == "mirror", scale=scale, lattice=mode == "lattice")
        if mode == "rewrite":
            els2 = [equiv.rewritten(ctx, e) for e in sc.els]
            m = equiv.Motion(((1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (0.0, 0.0, 1.0)), (0.0, 0.0, 0.0))
        else:
            els2 = [equiv.move(e, m) for e in sc.els]
        optics2 = [e.build(sut) for e in els2]
        ctx.desc = {"scene": [e.desc() for e in sc.els], "ray": shot.desc(), "mode": mode, "A": m.A, "t": m.t, "s": m.s}
        for s in [shot] + scenes.extra_shots(ctx, sc, shot, 2):
            order = ctx.pick((0, 1, -1))
            base = equiv.trace(optics, s.P, s.d, md, s.wavelength, order)
            if len(base.V) > 60 or equiv.borderline(sc.els, s.P, s.d, base.V, L, order):
                ctx.skip("borderline path")
                continue
            amp = equiv.amplification(ctx, sc.els, optics, base, s.P, s.d, md, L, s.wavelength, order)
            if amp is None or amp[0][-1] > 1e4 or amp[1] > 1e6:
                ctx.skip("path too sensitive")
                continue
            A, Ad = amp
            d2 = m.vec(s.d)
            if mode == "rewrite":
                d2 = mul(d2, ctx.logu(0.01, 100))
            wl, G = s.wavelength, None
            t2 = equiv.trace(optics2, m.point(s.P), d2, md * m.s, wl, order)
            L2 = (L + norm(m.t)) + 1
            ctx.check(len(t2.V) == len(base.V) and t2.blocked == base.blocked, "moving the whole scene and the ray alike (%s) changes the path" % mode,
                      ray=s.desc(), order=order, before=base.V, after=t2.V, moved=[e.desc() for e in els2], blocked=[base.blocked, t2.blocked])
            for k in range(len(base.V)):
                want = m.point(v3.tup(base.V[k]))
                tol = 2e-12 * L2 * max(1.0, m.s) * (50 + 20 * A[k]) + 1e-11
                ctx.check(dist(v3.tup(t2.V[k]), want) < tol, "moving the whole scene and the ray alike (%s) moves vertex %d elsewhere" % (mode, k),
                          ray=s.desc(), order=order, got=t2.V[k], expected=want, tolerance=tol, moved=[e.desc() for e in els2])
            told = 1e-11 * (10 + Ad * (1 + L2 / max(1e-3, L)))
            ctx.check(dist(v3.tup(t2.d), m.vec(v3.tup(base.d))) < told, "moving the whole scene and the ray alike (%s) changes where the ray goes" % mode,
                      ray=s.desc(), order=order, got=t2.d, expected=m.vec(v3.tup(base.d)), tolerance=told)
            ctx.ev("paths compared: " + mode)
            ctx.note("vertices compared", len(base.V))
            ctx.seen(mode, len(base.V), quant(s.d))
    return case


def colour(ctx):
    """only the product of wavelength, order and groove density matters; without gratings the wavelength does not"""
    kinds = ["mirror", "concave", "ideal", "balllens", "compound", "dmd"]
    with_grating = ctx.chance(0.6)
    sc, shot = scenes.make_scene(ctx, (["grating"] if with_grating else []) + kinds, n_hits=ctx.i(1, 4),
                                 orders=(1, -1, 2) if with_grating else (0, 1))
    k = ctx.pick([2.0, 0.5, 4.0]) if ctx.chance(0.5) else ctx.logu(0.3, 3)
    md = scenes.budget(ctx, sc.L)
    els2 = []
    for e in sc.els:
        if e.kind == "grating":
            els2.append(E.Grating(e.pos, e.n_raw, e.tan_raw, e.h, e.w, e.G * k))
        else:
            els2.append(e)
    ctx.desc = {"scene": [e.desc() for e in sc.els], "ray": shot.desc(), "factor": k}
    o1, o2 = sc.build(sut), [e.build(sut) for e in els2]
    for s in [shot] + scenes.extra_shots(ctx, sc, shot, 2):
        base = equiv.trace(o1, s.P, s.d, md, s.wavelength, s.order)
        if len(base.V) > 60 or equiv.borderline(sc.els, s.P, s.d, base.V, sc.L, s.order):
            ctx.skip("borderline path")
            continue
        amp = equiv.amplification(ctx, sc.els, o1, base, s.P, s.d, md, sc.L, s.wavelength, s.order)
        if amp is None or amp[0][-1] > 1e4:
            ctx.skip("path too sensitive")
            continue
        t2 = equiv.trace(o2, s.P, s.d, md, s.wavelength / k, s.order)
        ctx.check(len(t2.V) == len(base.V) and t2.blocked == base.blocked and
                  np.all(np.linalg.norm(t2.V - base.V, axis=1) < 1e-11 * (1 + sc.L) * (10 + amp[0])), "the path depends on the colour beyond "
                  "the product of wavelength and groove density", ray=s.desc(), factor=k, before=base.V, after=t2.V)
        ctx.ev("paths compared: colour")


def places(ctx):
    """the same encounter, close to a rim or to touching, at the origin, on axes and elsewhere, turned to special and other directions"""
    R = ctx.pick([1.0, 2.0, 0.5]) if ctx.chance(0.5) else ctx.logu(0.1, 10)
    dl = 10.0 ** ctx.u(-9, -1)
    q = R * ctx.u(1.5, 6)
    kind = ctx.pick(["ball", "lens", "solid", "cylinder", "disc", "rectangle"])
    ang = ctx.u(0, 6.3)
    spots = [(0.0, 0.0, 0.0), mul(scenes.rand_unit(ctx), R * ctx.u(0.1, 4))]
    k = ctx.i(0, 2)
    spots.append(tuple(R * ctx.u(0.1, 4) if i == k else 0.0 for i in range(3)))
    frames = [((1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (0.0, 0.0, 1.0)), ((0.0, 1.0, 0.0), (0.0, 0.0, 1.0), (1.0, 0.0, 0.0)),
              ((0.0, 0.0, -1.0), (0.0, 1.0, 0.0), (1.0, 0.0, 0.0))]
    z = scenes.rand_unit(ctx)
    x = scenes.tangent_for(ctx, z)
    frames.append((x, cross(z, x), z))
    out_, far = ctx.chance(0.3), None
    got = []
    for c in spots:
        for ex, ey, ez in frames:
            e = add(mul(ex, math.cos(ang)), mul(ey, math.sin(ang)))
            st = "float"
            if kind in ("ball", "lens", "solid", "cylinder"):
                b = R * (1 + dl if out_ else 1 - dl)
                d = neg(ez)
                P = madd(madd(c, b, e), q, ez)
                if kind == "ball":
                    el = E.BallMirror(c, 2 * R)
                elif kind == "lens":
                    el = E.BallLens(c, 2 * R, 1.5)
                elif kind == "solid":
                    el = E.CompoundEl(E.SphereLeaf(c, R), "reflect", 1.5)
                else:
                    el = E.CompoundEl(E.CylLeaf(c, cross(ez, e), R), "reflect", 1.5)
                want = None if out_ else madd(P, q - math.sqrt(R * R - b * b), d)
                tol = (1e-14 * (q * q + dot(c, c) + R * R) / R + 1e-12) / math.sqrt(dl) + 1e-12
                if dl * R * R < 2e-14 * (q * q + dot(c, c) + R * R):
                    raise Skip("touching")
            else:
                b = R * (1 + dl if out_ else 1 - dl)
                tol = 1e-13 * (1 + q + norm(c) + R)
                if dl * R < 1e-14 * (q + norm(c) + R):
                    raise Skip("on the rim")
                if kind == "disc":
                    el = E.RoundMirror(c, ez, 2 * R)
                    T = madd(c, b, e)
                else:
                    el = E.RectMirror(c, ez, ex, 2 * R, 3 * R)
                    T = madd(madd(c, b, ex), R * math.sin(ang), ey)
                d = unit(sub(madd(c, R * 0.3, e), madd(c, q, ez)))
                P = madd(T, -q, d)
                want = None if out_ else T
            ray = sut.Ray(np.array(P), np.array(d))
            ray.run(q * 1.01 if kind in ("disc", "rectangle") else 2 * q, optic_list=[el.build(sut)], max_interactions=1)
            V = ray.get_plot_repr()
            met = dist(V[1], P) < (q * 1.005 if kind in ("disc", "rectangle") else 1.5 * q)
            ctx.desc = {"optic": el.desc(), "P": P, "d": d, "inside by": dl * (-1 if out_ else 1)}
            ctx.check(met == (want is not None), "an optic is met at some places and not at others", met=met, expected=want)
            if want is not None:
                ctx.check(dist(V[1], want) < tol, "an optic is met elsewhere than at other places", got=V[1], expected=want, tolerance=tol)
            got.append(met)
    ctx.ev("places compared: " + kind, len(got))
    ctx.seen(kind, quant((dl, ang)), out_)


def gaps(ctx):
    """the same short step onto a surface, at the origin and elsewhere"""
    g = 10.0 ** ctx.u(-7, -1)
    D = ctx.logu(0.5, 10)
    kind = ctx.pick(["disc", "rectangle", "ball", "solid", "detector"])
    k = ctx.i(0, 2)
    spots = [(0.0, 0.0, 0.0), mul(scenes.rand_unit(ctx), D * ctx.u(0.1, 4)), mul(scenes.rand_unit(ctx), ctx.logu(10, 3000)),
             tuple(ctx.pick([-1, 1]) * ctx.logu(10, 3000) if i == k else 0.0 for i in range(3))]
    n = scenes.rand_unit(ctx) if ctx.chance(0.7) else ctx.pick([(1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (0.0, 0.0, -1.0)])
    d = v3.rodrigues(neg(n), v3.any_perp(n), ctx.u(-1.2, 1.2))
    off = mul(v3.rodrigues(v3.any_perp(n), n, ctx.u(0, 6.3)), D * ctx.u(0, 0.3))
    for c in spots:
        if kind == "ball":
            el, T, nn = E.BallMirror(c, D), madd(c, D / 2, n), n
        elif kind == "solid":
            el, T, nn = E.CompoundEl(E.SphereLeaf(c, D / 2), "reflect", 1.5), madd(c, D / 2, n), n
        else:
            t = scenes.tangent_for(ctx, n)
            el = E.RoundMirror(c, n, D) if kind == "disc" else E.RectMirror(c, n, t, D, D) if kind == "rectangle" else E.Detector(c, n, t, D, D)
            T, nn = add(c, off), n
        P = madd(T, -g, d)
        tol = 4e-15 * (norm(c) + D + 1) / abs(dot(d, n)) * 10
        if g < 100 * tol:
            continue
        o = el.build(sut)
        ray = sut.Ray(np.array(P), np.array(d))
        ray.run(g + D / 4, optic_list=[o], max_interactions=1)
        V = ray.get_plot_repr()
        ctx.desc = {"optic": el.desc(), "P": P, "d": d, "gap": g}
        ctx.check(len(V) == 2 and dist(v3.tup(V[1]), T) < 20 * tol, "a surface close ahead is met at some places and not at others", path=V, expected=T, tolerance=20 * tol)
        if kind == "detector":
            ctx.check(bool(ray.blocked) and len(o.hit_data) == 1, "a detector close ahead records at some places and not at others")
        else:
            ctx.check(dist(v3.tup(ray.direction), sub(d, mul(nn, 2 * dot(d, nn)))) < 1e-9 + 100 * tol / D, "a mirror close ahead reflects otherwise than at other places")
        ctx.ev("short steps compared: " + kind)
    ctx.seen(kind, quant((g, D)))


PROP = Prop(
    "C15",
    "mixed scenes traced twice: as given, and rotated (at random, or about a coordinate axis or an element's normal by any angle), translated, mirror-imaged, permuted onto other axes, scaled by 0.001..1000 (within coordinates of some 1e4), or rewritten "
    "(other face, other tangent, other vector lengths, commuted CSG operands); the second path must be the image of the first within the "
    "amplification of rounding measured by perturbed runs; skipped where the oracle sees a borderline encounter",
    [Family(k, moved(k), n) for k, n in ( ("rotate", 2500), ("turn", 3000), ("translate", 1500), ("mirror", 2000), ("lattice", 2500), ("scale", 2000),
                                         ("rewrite", 3000))] +
    [Family("colour", colour, 2000), Family("places", places, 3000), Family("gaps", gaps, 3000)],
    required=["paths compared: " + k for k in ("rotate", "turn", "translate", "mirror", "lattice", "scale", "rewrite", "colour")] + ["places compared: " + k for k in ("ball", "lens", "solid", "cylinder", "disc", "rectangle")] +
    ["short steps compared: " + k for k in ("disc", "rectangle", "ball", "solid", "detector")],
    assumptions=RAY_ASSUMPTIONS)
