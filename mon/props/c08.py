"""C08 the grating equation."""
import math

import numpy as np

from ..core import Prop, Family
from ..common import *
from .. import sut, scenes, elements as E, v3
from ..v3 import *

A = ("grating",)


def sweep(ctx):
    """one grating, many wavelengths, orders and incidence angles, from both sides, in plane and conical"""
    S = ctx.logu(1, 100)
    st = "float"
    if ctx.chance(0.4):
        n_raw = ctx.pick(scenes.INT_NORMALS)
        t_raw = ctx.pick([t for t in scenes.INT_NORMALS if dot(t, n_raw) == 0] or [(v3.any_perp(unit(n_raw)))])
        pos = tuple(float(ctx.i(-30, 30)) for _ in range(3))
        st = ctx.pick(["int", "float"])
    else:
        n = scenes.rand_unit(ctx)
        n_raw = scenes.raw(ctx, n)
        t_raw = scenes.raw(ctx, scenes.tangent_for(ctx, n))
        pos = mul(scenes.rand_unit(ctx), S * ctx.u(0, 5))
    G = ctx.pick([150, 300, 600, 1200, 1800, 2400, 3600]) if ctx.chance(0.5) else ctx.u(20, 4000)
    if ctx.chance(0.08):
        G = ctx.pick([0, 1, ctx.u(0, 20), ctx.logu(4000, 1e5)])
    el = E.Grating(pos, n_raw, t_raw, S * ctx.u(0.5, 2), S * ctx.u(0.5, 2), G, own=ctx.pick([None, None, 0, 1, -1, 2, -4]), style=st)
    optics = [el.build(sut)]
    u = cross(el.n, el.tan)
    for _ in range(8):
        side = ctx.pick([1.0, -1.0])
        alpha = 0.0 if ctx.chance(0.08) else ctx.u(-1.4, 1.4)
        if ctx.chance(0.1):
            alpha = ctx.pick([-1, 1]) * 10.0 ** ctx.u(-7, -2)
            ctx.ev("nearly normal incidence")
        gamma = 0.0 if ctx.chance(0.5) else ctx.u(-1.2, 1.2)
        p = add(mul(el.n, math.cos(alpha) * side), mul(u, math.sin(alpha)))     # back towards the source, in plane
        d = neg(add(mul(p, math.cos(gamma)), mul(el.tan, math.sin(gamma))))
        q = madd(madd(el.pos, el.h * ctx.u(-0.49, 0.49), el.tan), el.w * ctx.u(-0.49, 0.49), u)
        order = ctx.pick([0, 1, -1, 1, -1, 2, -2, 3, -3, 4, -5, 6])
        wl = ctx.pick([532, 400, 633, 1064]) if ctx.chance(0.3) else ctx.logu(5, 3000)
        if ctx.chance(0.15) and order > 0 and abs(alpha) > 0.01 and G > 0:
            wl = 2 * abs(math.sin(alpha)) / (G * order) * 1e6       # Littrow: straight back (in plane)
        if ctx.chance(0.1):                 # whatever the order and the wavelength, only their product with G counts
            order = ctx.pick([-1, 1]) * ctx.i(1, 40)
            wl = ctx.logu(1e-3, 2.2) / (max(G, 1) * abs(order)) * 1e6
            ctx.ev("extreme orders and wavelengths")
        shot = Shot(madd(q, -S * ctx.u(0.2, 3), d), scenes.raw(ctx, d), wl, order)
        ctx.desc = {"grating": el.desc(), "ray": shot.desc()}
        res, ray = run_monitored(ctx, [el], optics, shot, norm(el.pos) + 5 * S, 30 * S, aspects=A)
        ctx.seen(tuple(res.kinds), order, round(alpha, 2))


def dispersion(ctx):
    """across a spectrum the diffracted sines are evenly spaced: sin(beta) is linear in wavelength with slope G m"""
    n = scenes.rand_unit(ctx)
    t = scenes.tangent_for(ctx, n)
    u = cross(n, t)
    G, m = ctx.u(100, 1500), ctx.pick([1, -1, 2])
    a = ctx.u(0.02, 1.2) * ctx.pick([1, -1])
    back = add(mul(n, math.cos(a)), mul(u, math.sin(a)))
    side = 1.0 if a > 0 else -1.0
    gr = sut.Grating(np.zeros(3), normal=np.array(n), tangent=np.array(t), h=10, w=10, G=G)
    wls = [ctx.u(200, 1200) for _ in range(5)]
    ctx.desc = {"normal": n, "tangent": t, "G": G, "order": m, "alpha": a, "wavelengths": wls}
    for wl in wls:
        sb = G * m * wl / 1e6 - abs(math.sin(a))
        if abs(abs(sb) - 1) < 1e-6:
            continue
        ray = sut.Ray(np.array(mul(back, 7.0)), np.array(neg(back)), wavelength=wl, order=m)
        ray.run(20, optic_list=[gr])
        if abs(sb) > 1:
            ctx.check(ray.blocked and len(ray.get_plot_repr()) == 2, "an order that does not propagate left the grating",
                      wavelength=wl, sin_beta=sb, path=ray.get_plot_repr())
            ctx.ev("evanescent orders stopped")
            continue
        out = v3.tup(ray.direction)
        ctx.check(not ray.blocked and abs(dot(out, u) * side - sb) < 1e-9 and abs(dot(out, t)) < 1e-9 and dot(out, n) > 0,
                  "G m lambda = sin(alpha) + sin(beta) does not hold", wavelength=wl, outgoing=out, sin_beta=dot(out, u) * side,
                  expected=sb)
        ctx.ev("points of a spectrum checked")


PROP = Prop(
    "C08",
    "gratings in random and whole-number poses, 0-1e5 lines/mm, orders -40..40, wavelengths from X-rays to millimetres, any in-plane and out-of-"
    "plane incidence from both sides, Littrow mounts, spectra, and gratings in mixed scenes; sin(alpha)+sin(beta)=G m lambda in "
    "the plane across the grooves, groove component kept, order 0 a mirror, orders with |sin(beta)|>1 end at the grating",
    [Family("sweep", sweep, 8000),
     Family("dispersion", dispersion, 6000),
     Family("scenes", scene_case(["grating", "grating", "mirror", "ideal", "balllens", "inert"], A,
                                 orders=(0, 1, -1, 2, -2, 3, -4)), 7000)],
    required=["nearly normal incidence", "interactions checked: grating grating", "absorptions checked: grating", "points of a spectrum checked",
              "evanescent orders stopped", "extreme orders and wavelengths"],
    assumptions=RAY_ASSUMPTIONS + ["incidence less than 2e-2 from along the grooves and exact cut-off are not judged"])
