"""C16 light paths are reversible."""
import math

import numpy as np

from ..core import Prop, Family, Skip
from ..common import *
from .. import sut, scenes, elements as E, v3, equiv
from ..v3 import *


def there_and_back(ctx, els, optics, s, L, md, max_int=60):
    base = equiv.trace(optics, s.P, s.d, md, s.wavelength, 0, max_int)
    n = len(base.V)
    if base.blocked or n < 2 or equiv.borderline(els, s.P, s.d, base.V, L) or \
            equiv.borderline(els, v3.tup(base.V[-1]), neg(v3.tup(base.d)), base.V[::-1], L):
        ctx.skip("borderline path")
        return
    total = sum(np.linalg.norm(base.V[i + 1] - base.V[i]) for i in range(n - 1))
    if n - 1 >= max_int or abs(total - md) > 1e-6 * (1 + L):
        # ended on a surface: step off it first
        ctx.skip("ended on a surface")
        return
    amp = equiv.amplification(ctx, els, optics, base, s.P, s.d, md, L, s.wavelength, 0, max_int)
    if amp is None or amp[0][-1] > 1e4:
        ctx.skip("path too sensitive")
        return
    E0, d0 = v3.tup(base.V[-1]), v3.tup(base.d)
    back = equiv.trace(optics, E0, neg(d0), md, s.wavelength, 0, max_int)
    bamp = equiv.amplification(ctx, els, optics, base=back, P=E0, d=neg(d0), md=md, L=L, wl=s.wavelength, order=0, max_int=max_int)
    if bamp is None or bamp[0][-1] > 1e4:
        ctx.skip("return path too sensitive")
        return
    ctx.check(len(back.V) == n and not back.blocked, "sent back the way it came, a ray takes another path", ray=s.desc(),
              scene=[e.desc() for e in els], out=base.V, back=back.V)
    far = max(L, float(np.max(np.abs(base.V))))
    for k in range(n):
        tol = 1e-11 * (1 + far) * (20 + 10 * bamp[0][k] + amp[0][-1]) + 3e-9
        a, b = v3.tup(back.V[k]), v3.tup(base.V[n - 1 - k])
        ctx.check(dist(a, b) < tol, "sent back the way it came, a ray does not retrace its path (vertex %d)" % k, ray=s.desc(),
                  scene=[e.desc() for e in els], out=base.V, back=back.V, off=dist(a, b), tolerance=tol)
    tol = 1e-9 * (1 + far / max(1.0, L)) * (1 + bamp[1])
    ctx.check(dist(v3.tup(back.d), neg(s.d)) < tol, "a reversed ray does not end up running against its original direction", ray=s.desc(),
              scene=[e.desc() for e in els], got=back.d, expected=neg(s.d))
    ctx.ev("paths retraced")
    ctx.note("retraced interactions", n - 2)
    for kind in {e.kind + ":" + e.sub for e in els for v in base.V[1:-1] if e.on_surface(v3.tup(v), 1e-6)}:
        ctx.counters["retraced through " + kind] += 1
    ctx.seen(n, quant(s.d))


def scene(ctx):
    kinds = ["mirror", "dmd", "concave", "ballmirror", "balllens", "compound", "compound_mirror", "ideal"]
    sc, shot = scenes.make_scene(ctx, kinds, n_hits=ctx.i(1, 4))
    optics = sc.build(sut)
    ctx.desc = {"scene": [e.desc() for e in sc.els], "ray": shot.desc()}
    for s in [shot] + scenes.extra_shots(ctx, sc, shot, 3):
        there_and_back(ctx, sc.els, optics, s, sc.L, 3 * sc.L + sc.S * ctx.u(0, 5))


def grazing(ctx):
    """into glass, or off a surface, at almost no angle to it"""
    S = ctx.logu(1, 60)
    c = mul(scenes.rand_unit(ctx), S * ctx.u(0, 3))
    kind = ctx.pick(["ball", "ball", "solid", "mirror", "lens"])
    g = 10.0 ** ctx.u(-2.4, -0.7)                    # sine of the angle to the surface
    n = scenes.rand_unit(ctx)
    t = scenes.tangent_for(ctx, n)
    d = unit(madd(mul(t, math.sqrt(1 - g * g)), -g, n))
    R = S * ctx.u(0.5, 2)
    idx = ctx.u(1.05, 2.5)
    Q = madd(c, R, n)
    if kind == "ball":
        els = [E.BallLens(c, 2 * R, idx)]
    elif kind == "solid":
        els = [E.CompoundEl(ctx.pick([E.SphereLeaf(c, R), ("intersect", E.SphereLeaf(c, R), E.SphereLeaf(madd(c, R * ctx.u(0.1, 1), n), R))]),
                            "refract", idx)]
    elif kind == "mirror":
        els = [E.RoundMirror(Q, scenes.raw(ctx, n), R * ctx.u(1, 3)) if ctx.chance(0.5) else E.BallMirror(c, 2 * R)]
    else:
        els = [E.IdealLens(Q, scenes.raw(ctx, n), R * ctx.u(1, 3), R * ctx.u(0.5, 5), "ideal")]
    if ctx.chance(0.4):
        els.append(E.RoundMirror(madd(c, 4 * R, t), scenes.around(ctx, t, 0.3), 6 * R))
    optics = [e.build(sut) for e in els]
    s = Shot(madd(Q, -R * ctx.u(0.5, 3), d), d, ctx.u(200, 2000))
    if kind in ("ball", "solid") and ctx.chance(0.5):  # from inside the glass, leaving it at almost no angle to its surface
        kind += " from inside"
        g = 10.0 ** ctx.u(-3, -1.2)
        a = math.sqrt(1 - g * g) / idx
        d = unit(madd(mul(t, a), math.sqrt(1 - a * a), n))
        s = Shot(madd(Q, -R * math.sqrt(1 - a * a) * ctx.u(0.2, 1.5), d), d, s.wavelength)
    ctx.desc = {"scene": [e.desc() for e in els], "ray": s.desc()}
    k = ctx.counters["paths retraced"]
    there_and_back(ctx, els, optics, s, norm(c) + 8 * R, 30 * R + norm(c))
    if ctx.counters["paths retraced"] > k:
        ctx.ev("grazing paths retraced: " + kind)


def order0(ctx):
    """gratings in zero order are mirrors, and as reversible"""
    sc, shot = scenes.make_scene(ctx, ["grating", "mirror", "ideal"], n_hits=ctx.i(1, 4))
    optics = sc.build(sut)
    ctx.desc = {"scene": [e.desc() for e in sc.els], "ray": shot.desc()}
    for s in [shot] + scenes.extra_shots(ctx, sc, shot, 2):
        there_and_back(ctx, sc.els, optics, s, sc.L, 3 * sc.L + sc.S * ctx.u(0, 5))


PROP = Prop(
    "C16",
    "mixed scenes of mirrors (flat, DMD, concave, ball, CSG), ball lenses, CSG lenses, ideal lenses and zero-order gratings: a path that "
    "ends in free space is run again from its end, backwards, and must visit the same vertices in reverse; skipped where the oracle sees "
    "a borderline encounter or measured amplification is large",
    [Family("scenes", scene, 6000), Family("zero-order", order0, 2000), Family("grazing", grazing, 4000)],
    required=["paths retraced"] + ["grazing paths retraced: " + k for k in ("ball", "solid", "mirror", "lens", "ball from inside", "solid from inside")] + ["retraced through " + k for k in
                                   ("mirror:round", "mirror:rect", "mirror:dmd", "mirror:concave", "mirror:ball", "lens:ball",
                                    "compound:refract", "compound:reflect", "ideal:ideal", "grating:grating")],
    assumptions=RAY_ASSUMPTIONS + ["collimators, focusers and diffracted orders are not reversible and left out"])
