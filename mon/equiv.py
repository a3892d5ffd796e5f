"""Moving whole scenes, and deciding when two traces agree in spite of rounding (amplification measured, not guessed)."""
import math

import numpy as np

from . import sut, scenes, elements as E, v3
from .v3 import *
from .trace import Shot, nearest


class Motion:
    """x -> s A x + t, A orthogonal (proper or a mirror image)"""

    def __init__(self, A, t, s=1.0):
        self.A, self.t, self.s = A, t, s
        self.det = dot(cross(A[0], A[1]), A[2])

    def point(self, x):
        return add(mul(matvec(self.A, x), self.s), self.t)

    def vec(self, v):
        return matvec(self.A, v)

    def length(self, x):
        return x * self.s


def random_motion(ctx, L, rot=True, shift=True, mirror=False, scale=None, lattice=False):
    if lattice:
        perm = [int(i) for i in ctx.rng.permutation(3)]
        A = tuple(tuple((ctx.pick([1.0, -1.0]) if j == perm[i] else 0.0) for j in range(3)) for i in range(3))
        t = tuple(float(ctx.i(-50, 50)) for _ in range(3))
        return Motion(A, t, scale or 1.0)
    A = quat_matrix(ctx.normal(), ctx.normal(), ctx.normal(), ctx.normal()) if rot else ((1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (0.0, 0.0, 1.0))
    if mirror:
        A = tuple(neg(r) for r in A)
    t = mul(scenes.rand_unit(ctx), L * ctx.u(0, 2)) if shift else (0.0, 0.0, 0.0)
    return Motion(A, t, scale or 1.0)


def move(el, m, flip=None):
    """the same element after the motion; flip(el) may rewrite it in an equivalent way"""
    k = dict(name=el.name, style="float")
    if isinstance(el, E.RoundMirror):
        return E.RoundMirror(m.point(el.pos), m.vec(el.n_raw), m.length(el.D), m.vec(el.dmd_raw) if el.dmd_raw else None, **k)
    if isinstance(el, E.RectMirror):
        return E.RectMirror(m.point(el.pos), m.vec(el.n_raw), m.vec(el.tan_raw), m.length(el.h), m.length(el.w),
                            m.vec(el.dmd_raw) if el.dmd_raw else None, **k)
    if isinstance(el, E.ConcaveMirror):
        return E.ConcaveMirror(m.point(el.pos), m.vec(el.n_raw), m.length(el.D), m.length(el.f), **k)
    if isinstance(el, E.BallMirror):
        return E.BallMirror(m.point(el.pos), m.length(el.D), **k)
    if isinstance(el, E.BallLens):
        return E.BallLens(m.point(el.pos), m.length(el.D), el.index, None if el.n_raw is None else m.vec(el.n_raw), **k)
    if isinstance(el, E.IdealLens):
        return E.IdealLens(m.point(el.pos), m.vec(el.n_raw), m.length(el.D), m.length(el.f), el.type, **k)
    if isinstance(el, E.Pane):
        return E.Pane(m.point(el.pos), m.vec(el.n_raw), m.length(el.D), el.index, None if el.f is None else m.length(el.f), el.say, **k)
    if isinstance(el, E.Grating):
        return E.Grating(m.point(el.pos), m.vec(el.n_raw), m.vec(el.tan_raw), m.length(el.h), m.length(el.w), el.G, **k)
    if isinstance(el, E.Detector):
        return E.Detector(m.point(el.pos), m.vec(el.n_raw), m.vec(el.tan_raw), m.length(el.h), m.length(el.w), **k)
    if isinstance(el, E.Inert):
        return E.Inert(el.cls, m.point(el.pos), m.vec(el.n_raw), **k)
    if isinstance(el, E.CompoundEl):
        def tr(t):
            if isinstance(t, tuple):
                return (t[0], tr(t[1]), tr(t[2]))
            if isinstance(t, E.SphereLeaf):
                return E.SphereLeaf(m.point(t.c), m.length(t.R))
            return E.CylLeaf(m.point(t.c), m.vec(t.a_raw), m.length(t.R))
        return E.CompoundEl(tr(el.tree), el.behavior, el.index, **k)
    raise TypeError(el)


def rewritten(ctx, el):
    """an equivalent way to specify the element: the other face, the other tangent, other vector lengths"""
    def v(x, sign=True):
        if x is None:
            return None
        f = ctx.logu(0.05, 50) if ctx.chance(0.75) else ctx.logu(1e-8, 1e8)
        return mul(x, -f if sign and ctx.chance(0.5) else f)
    k = dict(name=el.name, style="float")
    if isinstance(el, E.RoundMirror):
        return E.RoundMirror(el.pos, v(el.n_raw), el.D, v(el.dmd_raw), **k)
    if isinstance(el, E.RectMirror):
        t, h, w = el.tan_raw, el.h, el.w
        if ctx.chance(0.3):
            t, h, w = el.tan2, w, h
        return E.RectMirror(el.pos, v(el.n_raw), v(t), h, w, v(el.dmd_raw), **k)
    if isinstance(el, E.ConcaveMirror):
        return E.ConcaveMirror(el.pos, v(el.n_raw, False), el.D, el.f, **k)
    if isinstance(el, E.Pane):
        return E.Pane(el.pos, v(el.n_raw), el.D, el.index, ctx.pick([el.f, None]), ctx.chance(0.5), **k)
    if isinstance(el, E.IdealLens):
        return E.IdealLens(el.pos, v(el.n_raw), el.D, el.f, el.type, **k)
    if isinstance(el, E.Grating):
        return E.Grating(el.pos, v(el.n_raw), v(el.tan_raw), el.h, el.w, el.G, **k)
    if isinstance(el, E.Detector):
        t, h, w = el.tan_raw, el.h, el.w
        if ctx.chance(0.3):
            t, h, w = el.tan2, w, h
        return E.Detector(el.pos, v(el.n_raw), v(t), h, w, **k)
    if isinstance(el, E.BallLens):
        return E.BallLens(el.pos, el.D, el.index, ctx.pick([None, scenes.rand_unit(ctx)]), **k)
    if isinstance(el, E.CompoundEl):
        def tr(t):
            if isinstance(t, tuple):
                a, b = tr(t[1]), tr(t[2])
                if t[0] != "difference" and ctx.chance(0.5):
                    a, b = b, a
                return (t[0], a, b)
            if isinstance(t, E.SphereLeaf):
                return E.SphereLeaf(t.c, t.R)
            return E.CylLeaf(t.c, v(t.a_raw), t.R)
        return E.CompoundEl(tr(el.tree), el.behavior, el.index, **k)
    return el


class Trace:
    def __init__(self, ray):
        self.V = np.array(ray.get_plot_repr(), dtype=float)
        self.d = np.array(ray.direction, dtype=float)
        self.blocked = bool(ray.blocked)


def trace(optics, P, d, md, wl=532, order=0, max_int=400):
    ray = sut.Ray(E.arr(P, "float"), E.arr(d, "float"), wavelength=wl, order=order)
    if max_int is None:
        ray.run(md, optic_list=optics)
    else:
        ray.run(md, optic_list=optics, max_interactions=max_int)
    return Trace(ray)


def borderline(els, P, d, V, L, order=0):
    """does the oracle call any encounter along this observed path borderline? (independent of the code's answers)"""
    n = len(V)
    for k in range(n - 1):
        a, b = v3.tup(V[k]), v3.tup(V[k + 1])
        s = dist(a, b)
        if s < 1e-4:
            return True
        r = nearest(els, a, unit(sub(b, a)), L)
        if r[0] == "amb" and r[1] < s * (1 + 1e-6) + 1e-5:
            return True
        if r[0] == "hit" and abs(r[2] - s) > 1e-6 * (1 + L) and abs(r[2] - s) < 1e-4 * (1 + L):
            return True
        if order and r[0] == "hit" and r[1].kind == "grating" and abs(r[2] - s) < 1e-6 * (1 + L):
            u = cross(r[1].n, r[1].tan)
            if abs(dot(unit(sub(b, a)), u)) < 1e-6:
                return True                      # light straight down onto a grating: neither side is the incident one
    return False


def amplification(ctx, els, optics, base, P, d, md, L, wl, order, max_int=None, eps=1e-8, k=3):
    """per-vertex sensitivity to changes of the start, measured by running slightly changed rays; None if the path changes
    character (somewhere near an edge)"""
    n = len(base.V)
    A = np.ones(n)
    Ad = 1.0 / max(1.0, L)
    for _ in range(k):
        dp = mul(scenes.rand_unit(ctx), eps * (1 + L))
        dd = mul(scenes.rand_unit(ctx), eps)
        t = trace(optics, add(P, dp), unit(add(d, dd)), md, wl, order, max_int)
        if len(t.V) != n or t.blocked != base.blocked:
            return None
        A = np.maximum(A, np.linalg.norm(t.V - base.V, axis=1) / (eps * (1 + L)))
        Ad = max(Ad, np.linalg.norm(t.d - base.d) / eps)
    A = np.maximum.accumulate(A)
    return A, Ad
