"""Workload generation: optical scenes built along the path of a ray, so that rays really meet the elements."""
import math

import numpy as np

from . import v3, elements as E
from .v3 import add, sub, mul, neg, dot, cross, norm, unit, dist, madd, perp
from .trace import nearest, Shot

AXES = [(1.0, 0.0, 0.0), (-1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (0.0, -1.0, 0.0), (0.0, 0.0, 1.0), (0.0, 0.0, -1.0)]
INT_NORMALS = AXES + [(float(a), float(b), float(c)) for a in (-1, 0, 1) for b in (-1, 0, 1) for c in (-1, 0, 1)
                      if abs(a) + abs(b) + abs(c) == 2] + [(1.0, 2.0, 0.0), (0.0, 3.0, 4.0), (-2.0, 1.0, 2.0),
                                                           (3.0, 0.0, -4.0), (1.0, -1.0, 1.0)]


def rand_unit(ctx):
    while True:
        v = (ctx.normal(), ctx.normal(), ctx.normal())
        n = norm(v)
        if n > 1e-3:
            return unit(v)


def around(ctx, axis, cos_lo, cos_hi=1.0):
    """random unit vector whose cosine with the unit axis is in [cos_lo, cos_hi]"""
    c = ctx.u(cos_lo, cos_hi)
    e = v3.any_perp(axis)
    f = cross(axis, e)
    p = ctx.u(0, 2 * math.pi)
    s = math.sqrt(max(0.0, 1 - c * c))
    return unit(add(mul(axis, c), mul(add(mul(e, math.cos(p)), mul(f, math.sin(p))), s)))


def raw(ctx, n):
    """an unnormalised way to write the direction n"""
    if ctx.chance(0.5):
        return n
    if ctx.chance(0.08):                             # all but a unit vector
        return mul(n, 1 + ctx.pick([-1, 1]) * 10.0 ** ctx.u(-10, -1))
    return mul(n, ctx.logu(0.05, 50))


def tangent_for(ctx, n):
    if ctx.chance(0.3):
        for a in AXES[::2]:
            if abs(dot(a, n)) < 1e-12:
                return a
    e = v3.any_perp(n)
    f = cross(n, e)
    p = ctx.u(0, 2 * math.pi)
    return add(mul(e, math.cos(p)), mul(f, math.sin(p)))


def int_tangent(n):
    for a in INT_NORMALS:
        if dot(a, n) == 0:
            return a
    return None


ZERO = (0.0, 0.0, 0.0)


class Scene:
    def __init__(self, style, S):
        self.style, self.S = style, S
        self.els = []
        self.L = 1.0

    def reach(self):
        m = self.S
        for e in self.els:
            b = e.bound()
            if b is not None:
                m = max(m, norm(b[0]) + b[1])
        self.L = m
        return m

    def build(self, m):
        return [e.build(m) for e in self.els]


def refractive_ok(els, new):
    if not new.refractive:
        return True
    b = new.bound()
    for e in els:
        if e.refractive:
            c = e.bound()
            if b is None or c is None or dist(b[0], c[0]) < (b[1] + c[1]) * 1.02:
                return False
    return True


def flat_pose(ctx, style, H, d, size):
    """(pos, n_raw, n) of a flat whose plane passes near H, facing the direction d somehow"""
    q = ctx.u()
    if style == "axis":
        cand = [n for n in INT_NORMALS if abs(dot(unit(n), d)) > 0.3]
        n_raw = ctx.pick(cand or AXES)
        n = unit(n_raw)
    else:
        if q < 0.12:
            n = d
        elif q < 0.2:
            n = around(ctx, d, 0.02, 0.2)
        else:
            n = around(ctx, d, 0.25, 1.0)
        if style == "planar":
            n = unit((n[0], n[1], 0.0)) if norm((n[0], n[1], 0.0)) > 1e-3 else (1.0, 0.0, 0.0)
        if ctx.chance(0.6):
            n = neg(n)
        n_raw = raw(ctx, n)
    return n_raw, n


def make_flat(ctx, kind, style, H, d, S):
    n_raw, n = flat_pose(ctx, style, H, d, S)
    size = S * ctx.logu(0.3, 2.0)
    asp = ctx.logu(0.25, 4.0) if ctx.chance(0.7) else 1.0
    h, w = size, size * asp
    if style == "axis":
        t_raw = int_tangent(n_raw)
        if t_raw is None:
            t_raw = tangent_for(ctx, n)
        if ctx.chance(0.5):
            h, w = float(max(1, round(h))), float(max(1, round(w)))
            if ctx.chance(0.5):
                h, w = int(h), int(w)
    else:
        if style == "planar" and ctx.chance(0.7):
            t_raw = (0.0, 0.0, 1.0)
        else:
            t_raw = tangent_for(ctx, n)
        t_raw = raw(ctx, t_raw)
    t = unit(t_raw)
    t2 = cross(n, t)
    a, b = ctx.u(-0.55, 0.55), ctx.u(-0.55, 0.55)
    if ctx.chance(0.15):
        a = b = 0.0
    pos = madd(madd(H, a * h, t), b * w, t2)
    if style == "axis":
        pos = tuple(float(round(x)) for x in pos)
    estyle = "int" if style == "axis" and ctx.chance(0.6) else "float"
    D = 2 * min(h, w) if ctx.chance(0.5) else math.hypot(h, w)
    if estyle == "int" and ctx.chance(0.5):
        D = float(max(1, round(D)))
    if kind in ("mirror", "dmd"):
        dmd = None
        if kind == "dmd":
            dmd = around(ctx, n, 0.9)
            dmd = raw(ctx, dmd)
        if ctx.chance(0.5):
            return E.RoundMirror(pos, n_raw, D, dmd, style=estyle)
        return E.RectMirror(pos, n_raw, t_raw, h, w, dmd, style=estyle)
    if kind in ("ideal", "ideal_collimate", "ideal_focus"):
        f = S * ctx.logu(0.3, 5.0)
        if estyle == "int" and ctx.chance(0.5):
            f = float(max(1, round(f)))
        return E.IdealLens(pos, n_raw, D, f, kind, style=estyle)
    if kind == "pane":
        return E.Pane(pos, n_raw, D, ctx.pick([1.5, 1.5, ctx.u(0.7, 3.0)]), ctx.pick([None, S]), ctx.chance(0.5), style=estyle)
    if kind == "grating":
        return E.Grating(pos, n_raw, t_raw, h, w, ctx.pick([150, 300, 600, 1200, 1800, 2400, 79.01, 1200.5]),
                         own=ctx.pick([None, None, None, 0, 1, -1, 3]), style=estyle)
    if kind == "detector":
        return E.Detector(pos, n_raw, t_raw, h, w, style=estyle)
    raise KeyError(kind)


def make_concave(ctx, style, H, d, S):
    n_raw, n = flat_pose(ctx, style, H, d, S)
    if ctx.chance(0.75) and dot(n, d) > 0:
        n_raw, n = neg(n_raw), neg(n)                    # mostly meet the concave side
    if abs(dot(n, d)) < 0.5 and ctx.chance(0.7):
        n_raw = n = mul(d, -1.0)
    D = S * ctx.logu(0.3, 2.0)
    f = D * (ctx.u(0.75, 4.0) if ctx.chance(0.7) else ctx.u(0.26, 0.75) if ctx.chance(0.7) else ctx.u(0.1, 0.25))    # to hemispheres and beyond
    e = v3.any_perp(n)
    p = ctx.u(0, 2 * math.pi)
    e = v3.rodrigues(e, n, p)
    pos = madd(H, ctx.u(0, 0.42) * D, e)
    if style == "axis" and ctx.chance(0.5):
        D, f = float(max(1, round(D))), float(max(1, round(f)))
        return E.ConcaveMirror(pos, n_raw, D, f, style="int")
    return E.ConcaveMirror(pos, n_raw, D, f)


def make_ball(ctx, style, H, d, S, cls):
    R = S * ctx.logu(0.15, 1.2)
    m = neg(around(ctx, d, 0.15, 1.0) if not ctx.chance(0.1) else d)
    c = madd(H, -R, m)
    if style == "planar":
        c = (c[0], c[1], 0.0)
    if style == "axis":
        c = tuple(float(round(x)) for x in c)
        R = float(max(2, round(2 * R))) / 2
    st = "int" if style == "axis" and ctx.chance(0.6) else "float"
    if cls == "mirror":
        return E.BallMirror(c, 2 * R, style=st)
    idx = ctx.pick([1.5, 1.5168, 1.33, 2.4, 1.8, 1.05, 1.0, 0.8, 4.0]) if ctx.chance(0.5) else ctx.u(1.02, 2.6)
    return E.BallLens(c, 2 * R, idx, n_raw=(rand_unit(ctx) if ctx.chance(0.3) else None), style=st)


def make_compound(ctx, style, H, d, S, behavior, cyl=True):
    R = S * ctx.logu(0.2, 1.0)
    axis = rand_unit(ctx)
    kind = ctx.pick(["leaf", "lens", "lens", "diff", "union", "nested", "cyl"] if cyl else
                    ["leaf", "lens", "lens", "diff", "union", "nested"])
    idx = ctx.u(1.05, 2.2) if ctx.chance(0.9) else ctx.pick([1.0, 0.7])

    def sp(c, r):
        return E.SphereLeaf(c, r)
    # built around the origin, then moved so that its surface is near H
    if kind == "leaf":
        tree, ext = sp((0.0, 0.0, 0.0), R), R
    elif kind in ("lens", "nested"):
        r1, r2 = R * ctx.u(1, 3), R * ctx.u(1, 3)
        th = ctx.u(0.1, 0.9) * min(r1, r2)
        A, B = sp(mul(axis, r1 - th / 2), r1), sp(mul(axis, -(r2 - th / 2)), r2)
        tree = ("intersect", A, B)
        ext = th / 2
        if kind == "nested":
            C = sp(mul(rand_unit(ctx), ctx.u(0, 0.3) * R), R * ctx.u(0.4, 1.0))
            tree = ctx.pick([("intersect", tree, C), ("intersect", C, tree), ("difference", tree, C),
                             ("difference", C, tree), ("union", tree, C), ("union", C, tree)])
    elif kind == "diff":
        A = sp((0.0, 0.0, 0.0), R)
        B = sp(mul(axis, R * ctx.u(0.3, 1.6)), R * ctx.u(0.3, 1.5))
        tree, ext = ("difference", A, B), R
    elif kind == "union":
        A = sp((0.0, 0.0, 0.0), R)
        B = sp(mul(axis, R * ctx.u(0.3, 1.2)), R * ctx.u(0.4, 1.2))
        tree, ext = ("union", A, B), R
    else:
        cyl_ = E.CylLeaf((0.0, 0.0, 0.0), raw(ctx, axis), R * ctx.u(0.3, 0.8))
        ball = sp(mul(rand_unit(ctx), 0.2 * R), R)
        tree = ctx.pick([("intersect", cyl_, ball), ("intersect", ball, cyl_), ("difference", ball, cyl_)])
        ext = R * 0.5
    off = madd(madd(H, ext * ctx.u(0.2, 1.0), d), ctx.u(-0.3, 0.3) * R, v3.any_perp(d))

    def move(t):
        if isinstance(t, tuple):
            return (t[0], move(t[1]), move(t[2]))
        if isinstance(t, E.SphereLeaf):
            return E.SphereLeaf(add(t.c, off), t.R)
        return E.CylLeaf(add(t.c, off), t.a_raw, t.R)
    el = E.CompoundEl(move(tree), behavior, idx)
    el.tree_kind = kind
    return el


MAKERS = {
    "mirror": lambda c, st, H, d, S: make_flat(c, "mirror", st, H, d, S),
    "dmd": lambda c, st, H, d, S: make_flat(c, "dmd", st, H, d, S),
    "ideal": lambda c, st, H, d, S: make_flat(c, "ideal", st, H, d, S),
    "ideal_collimate": lambda c, st, H, d, S: make_flat(c, "ideal_collimate", st, H, d, S),
    "ideal_focus": lambda c, st, H, d, S: make_flat(c, "ideal_focus", st, H, d, S),
    "pane": lambda c, st, H, d, S: make_flat(c, "pane", st, H, d, S),
    "grating": lambda c, st, H, d, S: make_flat(c, "grating", st, H, d, S),
    "detector": lambda c, st, H, d, S: make_flat(c, "detector", st, H, d, S),
    "concave": lambda c, st, H, d, S: make_concave(c, st, H, d, S),
    "ballmirror": lambda c, st, H, d, S: make_ball(c, st, H, d, S, "mirror"),
    "balllens": lambda c, st, H, d, S: make_ball(c, st, H, d, S, "lens"),
    "compound": lambda c, st, H, d, S: make_compound(c, st, H, d, S, "refract"),
    "compound_mirror": lambda c, st, H, d, S: make_compound(c, st, H, d, S, "reflect"),
    "inert": lambda c, st, H, d, S: E.Inert(c.pick(["Annotation", "Filter", "Window"]), H, rand_unit(c)),
}
ALL = ["mirror", "dmd", "pane", "ideal", "ideal_collimate", "ideal_focus", "grating", "concave", "ballmirror", "balllens",
       "compound", "compound_mirror"]


def start_ray(ctx, style, S):
    if style == "axis":
        P = (float(ctx.i(-5, 5)), float(ctx.i(-5, 5)), float(ctx.i(-5, 5)))
        d_raw = ctx.pick(INT_NORMALS)
        rs = "int" if ctx.chance(0.6) else "float"
    elif style == "planar":
        P = (ctx.u(-S, S), ctx.u(-S, S), 0.0)
        a = ctx.u(0, 2 * math.pi)
        d_raw = raw(ctx, (math.cos(a), math.sin(a), 0.0))
        rs = "float"
    else:
        P = mul(rand_unit(ctx), S * ctx.u(0, 5))
        d_raw = raw(ctx, rand_unit(ctx))
        rs = "float"
    wl = ctx.pick([532, 450.0, 680.0, 1064, 400, 253.7]) if ctx.chance(0.5) else ctx.u(200, 2000)
    return P, d_raw, rs, wl


def make_scene(ctx, kinds, n_hits=None, decoys=None, end=None, style=None, orders=(0,), big=False):
    """a scene in which the returned shot meets up to n_hits of the given kinds of elements"""
    style = style or ctx.pick(["free", "free", "free", "axis", "planar"])
    S = ctx.logu(1.0, 100.0) if style != "axis" else float(ctx.i(3, 60))
    off = ZERO
    if big:
        S = ctx.logu(100.0, 300.0)
    elif style == "free" and ctx.chance(0.2):           # small, large, and far-off scenes
        q = ctx.i(0, 3)
        S = ctx.logu(0.01, 1.0) if q == 0 else ctx.logu(100.0, 3000.0) if q == 1 else S
        if q > 1 or ctx.chance(0.3):
            off = mul(rand_unit(ctx), min(1e4, S * ctx.logu(3, 200)))
    sc = Scene(style, S)
    P, d_raw, rs, wl = start_ray(ctx, style, S)
    P = add(P, off)
    shot = Shot(P, d_raw, wl, ctx.pick(orders), rs)
    info = {"order": shot.order, "wavelength": wl}
    d = shot.d
    n_hits = n_hits if n_hits is not None else ctx.i(1, 5)
    L = 20 * S
    made = 0
    tries = 0
    while made < n_hits and tries < n_hits * 4 + 4:
        tries += 1
        kind = ctx.pick(kinds) if not (end and made == n_hits - 1) else end
        H = madd(P, S * ctx.u(0.6, 3.0), d)
        el = MAKERS[kind](ctx, style, H, d, S)
        if not refractive_ok(sc.els, el):
            continue
        if el.refractive and sc.els and hasattr(el, "inside") and el.inside(P):
            continue
        sc.els.append(el)
        r = nearest(sc.els, P, d, L)
        if r[0] != "hit":
            sc.els.pop()
            continue
        made += 1
        # go on through whatever is met, until the ray is out in the open again
        stop = False
        for _ in range(12):
            r = nearest(sc.els, P, d, L)
            if r[0] != "hit":
                stop = r[0] == "amb"
                break
            Q = madd(P, r[2], d)
            a = r[1].act(Q, d, r[3], info)
            info.pop("alt", None)
            if a[0] != "dir":
                stop = True
                break
            P, d = Q, unit(a[1])
        else:
            stop = True
        if stop or dist(P, off) > 40 * S:
            break
    for _ in range(decoys if decoys is not None else ctx.i(0, 3)):
        H = add(off, mul(rand_unit(ctx), S * ctx.u(0.5, 8)))
        if style == "planar":
            H = (H[0], H[1], 0.0)
        el = MAKERS[ctx.pick(kinds + ["inert"])](ctx, style, H, rand_unit(ctx) if style == "free" else d, S)
        if refractive_ok(sc.els, el) and not (el.refractive and hasattr(el, "inside") and el.inside(shot.P)):
            sc.els.append(el)
    order = ctx.rng.permutation(len(sc.els))
    sc.els = [sc.els[i] for i in order]
    L = max(sc.reach(), norm(shot.P))
    sc.L = L
    if ctx.chance(0.1):             # numbers that come out of numpy arrays, as in scripts that loop over linspace and arange
        shot.wavelength, shot.order = np.float64(shot.wavelength), np.int64(shot.order)
    return sc, shot


def extra_shots(ctx, sc, shot, n):
    """more rays into the same scene: neighbours of the first, and rays aimed at the elements from anywhere"""
    out = []
    for _ in range(n):
        q = ctx.u()
        if q < 0.35:
            P = add(shot.P, mul(rand_unit(ctx), sc.S * ctx.logu(1e-3, 0.3)))
            d = unit(add(shot.d, mul(rand_unit(ctx), ctx.logu(1e-3, 0.2))))
        elif sc.els:
            e = ctx.pick(sc.els)
            b = e.bound() or (mul(rand_unit(ctx), sc.S), sc.S)
            T = add(b[0], mul(rand_unit(ctx), b[1] * ctx.u(0, 1.1)))
            if ctx.chance(0.25) and hasattr(e, "within"):           # next to the rim, on either side
                k = 1 + ctx.pick([-1, 1]) * 10.0 ** ctx.u(-4, -0.5)
                if hasattr(e, "h"):
                    x, y = ctx.pick([(k, ctx.u(-1, 1)), (ctx.u(-1, 1), k)])
                    T = madd(madd(e.pos, x * e.h / 2, e.tan), y * ctx.pick([-1, 1]) * e.w / 2, e.tan2)
                else:
                    T = madd(e.pos, k * e.D / 2, v3.rodrigues(v3.any_perp(e.n), e.n, ctx.u(0, 6.3)))
            P = add(b[0], mul(rand_unit(ctx), max(b[1], sc.S * 0.2) * ctx.logu(0.05, 4.0)))
            if dist(P, T) < 1e-3:
                continue
            d = unit(sub(T, P))
        else:
            P, d = mul(rand_unit(ctx), sc.S), rand_unit(ctx)
        out.append(Shot(P, raw(ctx, d), shot.wavelength if ctx.chance(0.3) else ctx.u(200, 2000), shot.order))
    return out


def budget(ctx, L):
    b = ctx.pick([6.0, 12.0]) * L + ctx.u(0, 1) * L
    return np.float64(b) if ctx.chance(0.1) else int(b) + 1 if ctx.chance(0.1) else b
