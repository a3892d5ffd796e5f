"""C25 the colour of a wavelength."""
import math

import numpy as np

from ..core import Prop, Family, Skip
from .. import sut

KNOTS = [380.0, 440.0, 490.0, 510.0, 580.0, 645.0, 750.0]


def bruton(w, gamma):
    """Dan Bruton's approximation (hues piecewise linear, intensity falling off to 0.3 at both ends), gamma applied"""
    if w < 380:
        return (0.3, 0.0, 0.3)
    if w > 750:
        return (0.3, 0.0, 0.0)
    hue = {"r": [(380, 1), (440, 0), (510, 0), (580, 1), (750, 1)],
           "g": [(380, 0), (440, 0), (490, 1), (580, 1), (645, 0), (750, 0)],
           "b": [(380, 1), (490, 1), (510, 0), (750, 0)]}
    dim = [(380, 0.3), (440, 1), (645, 1), (750, 0.3)]

    def at(pts):
        for (x0, y0), (x1, y1) in zip(pts, pts[1:]):
            if x0 <= w <= x1:
                return y0 + (y1 - y0) * (w - x0) / (x1 - x0)
    return tuple(max(0.0, at(hue[c]) * at(dim)) ** gamma for c in "rgb")


def close(a, b, gamma, w):
    # x**gamma with a small gamma turns a rounding error at 0 into something visible
    tol = 1e-9
    if any(abs(w - k) < 1e-6 for k in KNOTS):
        tol = max(tol, (4e-8) ** gamma)
    return abs(a - b) <= tol


def band(w):
    if w < 380:
        return "below 380 nm"
    if w > 750:
        return "above 750 nm"
    return "%g to %g nm" % [(a, b) for a, b in zip(KNOTS, KNOTS[1:]) if a <= w <= b][0]


def wave(ctx, lo=200, hi=1000):
    k = ctx.i(0, 9)
    if k == 0:
        return float(ctx.pick(KNOTS))
    if k == 1:
        return ctx.pick(KNOTS) + ctx.pick([1, -1]) * ctx.logu(1e-9, 1e-1)
    if k == 2:
        return ctx.i(lo, hi)
    return ctx.u(lo, hi)


def colours(ctx):
    for _ in range(25):
        w = wave(ctx)
        gamma = 0.8 if ctx.chance(0.6) else ctx.pick([1.0, ctx.u(0.2, 3)])
        kw = {}
        if gamma != 0.8 or ctx.chance(0.2):
            kw["gamma"] = gamma
        floor, ceil = 380, 750
        if ctx.chance(0.35):
            floor = ctx.pick([380, 300, 400, 450.5, ctx.u(250, 500)])
            ceil = ctx.pick([750, 800, 700, 600.25, ctx.u(520, 900)])
            kw.update(floor_wave=floor, ceiling_wave=ceil)
        v = ctx.pick([w, np.float64(w), str(w)] if ctx.chance(0.2) else [w])
        ctx.desc = {"wavelength": repr(v), **kw}
        got = sut.ge.wavelength_to_rgb(v, **kw)
        ctx.check(len(got) == 3 and all(isinstance(float(c), float) and math.isfinite(c) for c in got), "a colour must be three finite numbers", got=repr(got))
        ctx.check(all(0.0 <= c <= 1.0 for c in got), "a colour component is outside 0..1", got=got)
        cl = min(max(float(w), floor), ceil)
        want = bruton(cl, gamma)
        ctx.check(all(close(a, b, gamma, cl) for a, b in zip(got, want)), "wrong colour for %r nm" % w, got=got, expected=want, clamped_to=cl, **kw)
        ctx.ev("colours in " + band(cl))
        if cl != w:
            ctx.ev("wavelengths clamped")
        ctx.seen(round(float(w), 6), gamma, floor, ceil)


def continuity(ctx):
    """no jump anywhere in the visible range"""
    w = ctx.pick(KNOTS[1:-1]) if ctx.chance(0.5) else ctx.u(380.001, 749.999)
    prev = None
    ctx.desc = {"around": w}
    for e in (1e-3, 1e-5, 1e-7, 1e-9):
        a, b = sut.ge.wavelength_to_rgb(max(380.0, w - e)), sut.ge.wavelength_to_rgb(min(750.0, w + e))
        jump = max(abs(x - y) for x, y in zip(a, b))
        ctx.check(jump <= 0.1 * (2 * e) ** 0.8 + 1e-9, "the colour jumps at %.12g nm" % w, below=a, above=b)
        prev = jump
    # clamping: everything beyond the ends looks like the ends
    lo, hi = sut.ge.wavelength_to_rgb(380), sut.ge.wavelength_to_rgb(750)
    far = ctx.logu(1, 1e6)
    ctx.check(tuple(sut.ge.wavelength_to_rgb(380 - far)) == tuple(lo) and tuple(sut.ge.wavelength_to_rgb(750 + far)) == tuple(hi), "a wavelength out of range must look like the end of the range", far=far)
    ctx.ev("continuity checked")
    ctx.seen(w)


PROP = Prop(
    "C25",
    "wavelengths over 200..1000 nm (numbers, numpy numbers, whole numbers, text), knots of the approximation and their neighbourhood, "
    "gammas 0.2..3, floors and ceilings in and out of the visible range; every colour against Bruton's approximation written independently",
    [Family("colours", colours, 2500), Family("continuity", continuity, 1500)],
    required=["colours in below 380 nm", "colours in above 750 nm", "wavelengths clamped", "continuity checked"] + ["colours in %g to %g nm" % (a, b) for a, b in zip(KNOTS, KNOTS[1:])],
    assumptions=["compared to 1e-9, at the knots to the rounding of 0**gamma"])
