"""C22 the image test pattern: a full grid of origins times a fan of directions, coloured by a disc."""
import math
from collections import Counter

import numpy as np

from ..core import Prop, Family, Skip
from .. import sut
from ..v3 import *


def lin(a, b, n):
    return [0.0] if n == 1 else [a + (b - a) * i / (n - 1) for i in range(n)]


def key(v, q):
    return tuple(round(x / q) for x in v)


def grid(ctx):
    nx, nz, na = ctx.i(1, 9), ctx.i(1, 9), ctx.i(1, 5)
    if ctx.chance(0.2):
        nx, nz, na = (ctx.pick([1, 2]) for _ in range(3))
    elif ctx.chance(0.06):
        nx, nz, na = ctx.pick([(ctx.i(10, 70), ctx.i(1, 4), ctx.i(1, 3)), (ctx.i(1, 4), ctx.i(10, 70), ctx.i(1, 3)),
                               (ctx.i(1, 3), ctx.i(1, 3), ctx.i(6, 70)), (ctx.i(10, 20), ctx.i(10, 20), ctx.i(1, 9))])
        ctx.ev("fine grids")
    exact = nx < 10 and nz < 10 and na < 6 and ctx.chance(0.4)
    size = float(ctx.i(1, 12)) * 2 if exact else ctx.logu(0.1, 100)
    if exact:
        nx = ctx.pick([1, 2, int(size) + 1, 3, 5])
        nz = ctx.pick([1, 2, int(size) + 1, 3, 5])
    size = int(size) if exact and ctx.chance(0.5) else size
    awkward = not exact and ctx.chance(0.4)
    if awkward:                                      # sizes and steps that binary fractions cannot write
        size = ctx.pick([0.1, 0.2, 0.3, 0.6, 0.7, 1.1, 2.4, 4.8, 7.7, 9.9, 12.3, 0.001, 1e-6, 123456.7, 3.3e5, 1 / 3])
        nx, nz, na = ctx.i(2, 60), ctx.i(2, 6), ctx.i(2, 12)
        if ctx.chance(0.5):
            nx, nz = nz, nx
        ctx.ev("awkward sizes")
    angle = ctx.u(0.001, 1.4) if ctx.chance(0.6) else ctx.pick([0.1, 0.2, 0.3, 0.7, 1.1, 1.3, 0.05, 0.001])
    if ctx.chance(0.15):                             # no fan at all, a fan that opens the other way, a wide one
        angle = ctx.pick([0, 0.0, -angle, ctx.u(1.4, 3)])
        ctx.ev("other fans")
    if ctx.chance(0.05):
        size, exact, awkward = ctx.pick([0, 0.0]), False, False
        ctx.ev("patterns without extent")
    yc = ctx.u(-100, 100) if ctx.chance(0.7) else float(ctx.i(-50, 50))
    pd = ctx.pick([size, size / 2, size * 2, size * 1.5, float(ctx.i(1, 20))]) if ctx.chance(0.6) else size * ctx.u(0, 2)
    kw = dict(size=size, angle=angle, x_res=nx, z_res=nz, angle_res=na, pattern_d=pd)
    if ctx.chance(0.3):
        kw["pattern"] = "circle"
    use_defaults = ctx.chance(0.05)
    if use_defaults:
        kw, size, angle, nx, nz, na, pd = {}, 10, 0.2, 11, 11, 3, 5
    ctx.desc = dict(kw, y_center=yc)
    o, d, w = sut.go.image_rays(yc, **kw)
    n = nx * nz * na
    ctx.check(len(o) == n and len(d) == n and len(w) == n, "the pattern has %d origins, %d directions, %d colours instead of %d" % (len(o), len(d), len(w), n))
    xs, zs, az = lin(-size / 2, size / 2, nx), lin(-size / 2, size / 2, nz), lin(-angle, angle, na)
    each = 1                                         # how many rays share a place and a direction
    if size == 0:
        each, xs, zs = nx * nz, [0.0], [0.0]
    if angle == 0:
        each, az = each * na, [0.0]
    q = 1e-9 * (1 + size)
    got = {}
    near = 0
    cells = Counter()
    for i in range(n):
        oo, dd = v3tup(o[i]), v3tup(d[i])
        ctx.check(abs(oo[1] - yc) < 1e-12 * (1 + abs(yc)), "an origin is off the plane y = y_center", origin=oo)
        ctx.check(abs(dd[0]) < 1e-15 and abs(norm(dd) - 1) < 1e-12, "a direction is not a unit vector in the y-z plane", direction=dd)
        ix = min(range(len(xs)), key=lambda k: abs(xs[k] - oo[0]))
        iz = min(range(len(zs)), key=lambda k: abs(zs[k] - oo[2]))
        a = math.atan2(dd[2], dd[1])
        ia = min(range(len(az)), key=lambda k: abs(az[k] - a))
        ctx.check(abs(xs[ix] - oo[0]) < q and abs(zs[iz] - oo[2]) < q and abs(az[ia] - a) < 1e-9, "a ray is not on the grid of positions and angles",
                  origin=oo, direction=dd, nearest=[xs[ix], zs[iz], az[ia]])
        cells[(ix, iz, ia)] += 1
        r2, R2 = oo[0] * oo[0] + oo[2] * oo[2], pd * pd / 4
        if abs(r2 - R2) < 1e-9 * (1 + R2) and not (exact and r2 == R2):
            near += 1
            ctx.check(w[i] in (680.0, 450.0), "an unknown colour", wavelength=w[i])
        else:
            ctx.check(w[i] == (680.0 if r2 <= R2 else 450.0), "a ray %s the disc of diameter %g has the wrong colour" % (
                "inside" if r2 <= R2 else "outside", pd), origin=oo, wavelength=w[i])
            ctx.ev("rays of the pattern: " + ("on the rim" if r2 == R2 else ("inside" if r2 < R2 else "outside")))
    ctx.check(len(cells) == len(xs) * len(zs) * len(az) and max(cells.values()) == min(cells.values()) == each, "some combination of position and angle is missing or doubled", cells=len(cells))
    ctx.ev("patterns checked")
    ctx.seen(nx, nz, na, size, pd)
    # every entry is an array of its own
    i = ctx.i(0, n - 1)
    for what, lst in (("origin", o), ("direction", d)):
        before = [v3tup(x) for x in lst]
        lst[i][:] = [0.125, 0.25, 0.5]
        ctx.check(all(v3tup(x) == y for k, (x, y) in enumerate(zip(lst, before)) if k != i), "moving the %s of one ray of the pattern moves others" % what,
                  index=i)
        lst[i][:] = before[i]
    ctx.ev("entries changed one by one")
    # rays built from it start where and go where they say
    i = ctx.i(0, n - 1)
    r = sut.Ray(o[i], d[i], wavelength=w[i])
    r.run(1.0)
    ctx.check(dist(v3tup(r.position), add(v3tup(o[i]), v3tup(d[i]))) < 1e-9 * (1 + abs(yc) + size), "a ray of the pattern does not fly along its direction")


def v3tup(a):
    a = np.asarray(a, dtype=float)
    if a.shape != (3,):
        from ..core import Violation
        raise Violation("not a 3-vector: %r" % (a,))
    return tuple(float(x) for x in a)


def refused(ctx):
    """resolutions below one are refused"""
    which = ctx.pick(["x_res", "z_res", "angle_res"])
    bad = ctx.pick([0, -1, -5])
    kw = dict(x_res=ctx.i(1, 4), z_res=ctx.i(1, 4), angle_res=ctx.i(1, 4))
    kw[which] = bad
    ctx.desc = kw
    try:
        r = sut.go.image_rays(0.0, **kw)
    except ValueError:
        ctx.ev("refused resolutions")
        ctx.seen(which, bad)
        return
    ctx.fail("a resolution below one was accepted", **kw, got=len(r[0]))


PROP = Prop(
    "C22",
    "grids of 1..70 by 1..70 positions and 1..70 angles, sizes random and whole (where points lie exactly on the rim of the disc), defaults, and refused "
    "resolutions; every ray is matched to one cell of the grid, every cell to one ray",
    [Family("grid", grid, 4000), Family("refused", refused, 500, 2000)],
    required=["rays of the pattern: inside", "rays of the pattern: outside", "rays of the pattern: on the rim", "patterns checked", "awkward sizes", "other fans", "patterns without extent", "fine grids", "entries changed one by one", "refused resolutions"],
    assumptions=["pattern=\"circle\" (the only pattern implemented); colours are not judged within 1e-9 of the rim unless the arithmetic is exact"])
