"""Independent models of the optical elements: where a ray meets them and what it does there.

Every model works from the element's specification (the constructor arguments) with plain-float analytic
geometry; none of it calls the code under test.  Each answers three-valued: 'hit', 'miss', or 'amb' when the
situation is too close to a decision boundary (grazing, rim, tie, critical angle, ...) to demand one outcome.
"""
import math

import numpy as np

from . import v3
from .v3 import add, sub, mul, neg, dot, cross, norm, unit, dist, madd, perp

SELF = 1e-10        # |t| up to this: the surface the ray is standing on
NEAR = 1e-6         # ambiguous band (times scale) around every decision


def arr(v, style):
    """a numpy vector the way a user would write it: integers where possible, or floats"""
    if style == "int" and all(float(x) == int(x) for x in v):
        return np.array([int(x) for x in v])
    return np.array([float(x) for x in v])


def size(x, style):
    """a whole number is written as one by those who write whole numbers"""
    return int(x) if style == "int" and x is not None and float(x) == int(x) else x


def plane_t(P, d, c, n):
    den = dot(n, d)
    if den == 0.0:
        return None, 0.0
    return dot(sub(c, P), n) / den, den


def sphere_ts(P, d, c, R):
    """(status, t0, t1) of the line with the sphere; status 'miss', 'two', 'amb' (close to tangent)"""
    q = sub(c, P)
    b = dot(q, d)
    m = madd(q, -b, d)
    disc = R * R - dot(m, m)
    if abs(disc) < 1e-5 * R * R:
        return "amb", b, b
    if disc < 0:
        return "miss", None, None
    r = math.sqrt(disc)
    return "two", b - r, b + r


def cyl_ts(P, d, c, a, R):
    dp = perp(d, a)
    s2 = dot(dp, dp)
    if s2 < 1e-4:
        return "amb", None, None
    q = perp(sub(c, P), a)
    s = math.sqrt(s2)
    u = mul(dp, 1 / s)
    b = dot(q, u)
    m = madd(q, -b, u)
    disc = R * R - dot(m, m)
    if abs(disc) < 1e-5 * R * R:
        return "amb", b / s, b / s
    if disc < 0:
        return "miss", None, None
    r = math.sqrt(disc)
    return "two", (b - r) / s, (b + r) / s


def round_off(P, c, R):
    """size of the rounding error of an intersection with a sphere of radius R seen from P (generic incidence)"""
    q2 = dot(sub(c, P), sub(c, P))
    return 2e-16 * (q2 + R * R) / R


class Element:
    kind = "?"
    refractive = False

    def __init__(self, name="", style="float"):
        self.name, self.style = name, style

    def hit(self, P, d, L):
        """(status, t, payload); for 'amb' t is a lower bound of where it might be hit, or None"""
        raise NotImplementedError

    def act(self, Q, d, payload, ray):
        """('dir', v, cond) | ('block',) | ('amb',): what leaves the element; cond = error amplification"""
        raise NotImplementedError

    def bound(self):
        """bounding sphere (centre, radius)"""
        raise NotImplementedError

    def on_surface(self, Q, tol):
        return False


class Flat(Element):
    def hit(self, P, d, L):
        t, den = plane_t(P, d, self.pos, self.n)
        h = dot(sub(P, self.pos), self.n)           # signed height above the plane
        if abs(h) <= SELF * (1 + L):
            return "miss", None, None               # standing on it
        if abs(h) < 1e-7:
            return "amb", 0.0, None
        if abs(den) < 1e-3:
            if abs(den) < 1e-12:
                return "miss", None, None           # parallel
            if t < -NEAR * L:
                return "miss", None, None
            return self.graze(P, d, t, L)
        if t < 0:
            return "miss", None, None
        if t < 1e-7:
            return "amb", 0.0, None
        Q = madd(P, t, d)
        w = self.within(Q, 1e-7 * (1 + L))
        if w == "in":
            return "hit", t, (self.n,)
        if w == "out":
            return "miss", None, None
        return "amb", t * (1 - 1e-6), None

    def graze(self, P, d, t, L):
        if t > 1e7:
            return "miss", None, None
        Q = madd(P, t, d)
        if self.within(Q, 1e-3 * (1 + L)) == "out":
            return "miss", None, None
        return "amb", max(0.0, t * 0.99), None

    def on_surface(self, Q, tol):
        return abs(dot(sub(Q, self.pos), self.n)) < tol and self.within(Q, tol) != "out"

    def payload_at(self, Q):
        return (self.n,)


def rect_within(Q, c, t1, t2, h, w, m):
    r = sub(Q, c)
    a = abs(dot(r, t1)) - h / 2
    b = abs(dot(r, t2)) - w / 2
    if a > m or b > m:
        return "out"
    if a < -m and b < -m:
        return "in"
    return "amb"


class Round(Flat):
    def within(self, Q, m):
        r = norm(perp(sub(Q, self.pos), self.n)) - self.D / 2
        return "out" if r > m else ("in" if r < -m else "amb")

    def bound(self):
        return self.pos, self.D / 2


class Rect(Flat):
    def within(self, Q, m):
        return rect_within(Q, self.pos, self.tan, self.tan2, self.h, self.w, m)

    def bound(self):
        return self.pos, 0.5 * math.hypot(self.h, self.w)


def reflect(d, n):
    return madd(d, -2 * dot(d, n), n)


class MirrorMixin:
    def act(self, Q, d, payload, ray):
        n = self.dmd if self.dmd is not None else payload[0]
        return "dir", reflect(d, n), 1.0


def _dmd_kw(self):
    if self.dmd is None:
        return {}
    return {"type": "dmd", "dmd_normal": arr(self.dmd_raw, self.style)}


class RoundMirror(MirrorMixin, Round):
    kind = "mirror"

    def __init__(self, pos, n_raw, D, dmd_raw=None, **k):
        super().__init__(**k)
        self.pos, self.n_raw, self.D, self.n = pos, n_raw, D, unit(n_raw)
        self.dmd_raw = dmd_raw
        self.dmd = unit(dmd_raw) if dmd_raw is not None else None
        self.sub = "dmd" if self.dmd else "round"

    def build(self, m):
        return m.Mirror(arr(self.pos, self.style), shape="circular_flat", normal=arr(self.n_raw, self.style),
                        D=size(self.D, self.style), **_dmd_kw(self))

    def desc(self):
        return "Mirror(%s, circular_flat, normal=%s, D=%r%s)" % (
            v3.fmt(self.pos), v3.fmt(self.n_raw), self.D, ", dmd_normal=" + v3.fmt(self.dmd_raw) if self.dmd else "")


class RectMirror(MirrorMixin, Rect):
    kind = "mirror"

    def __init__(self, pos, n_raw, tan_raw, h, w, dmd_raw=None, **k):
        super().__init__(**k)
        self.pos, self.n_raw, self.tan_raw, self.h, self.w = pos, n_raw, tan_raw, h, w
        self.n, self.tan = unit(n_raw), unit(tan_raw)
        self.tan2 = cross(self.n, self.tan)
        self.dmd_raw = dmd_raw
        self.dmd = unit(dmd_raw) if dmd_raw is not None else None
        self.sub = "dmd" if self.dmd else "rect"

    def build(self, m):
        return m.Mirror(arr(self.pos, self.style), shape="rectangular_flat", normal=arr(self.n_raw, self.style),
                        tangent=arr(self.tan_raw, self.style), h=size(self.h, self.style), w=size(self.w, self.style), **_dmd_kw(self))

    def desc(self):
        return "Mirror(%s, rectangular_flat, normal=%s, tangent=%s, h=%r, w=%r%s)" % (
            v3.fmt(self.pos), v3.fmt(self.n_raw), v3.fmt(self.tan_raw), self.h, self.w,
            ", dmd_normal=" + v3.fmt(self.dmd_raw) if self.dmd else "")


class ConcaveMirror(MirrorMixin, Element):
    """spherical cap, vertex at pos, centre of curvature at pos + 2 f n, seen through the aperture D"""
    kind = "mirror"
    sub = "concave"

    def __init__(self, pos, n_raw, D, f, **k):
        super().__init__(**k)
        self.pos, self.n_raw, self.D, self.f, self.n = pos, n_raw, D, f, unit(n_raw)
        self.rc = 2 * f
        self.c = madd(pos, self.rc, self.n)
        self.sag = self.rc - math.sqrt(max(0.0, self.rc ** 2 - (D / 2) ** 2))      # a wider one is the whole half sphere
        self.dmd = None

    def build(self, m):
        return m.Mirror(arr(self.pos, self.style), shape="circular_concave_spherical",
                        normal=arr(self.n_raw, self.style), D=size(self.D, self.style), f=size(self.f, self.style))

    def hit(self, P, d, L):
        # the cap: what lies within D/2 of the axis on the vertex's side of the sphere around c
        m = 1e-7 * (1 + L)
        st, t0, t1 = sphere_ts(P, d, self.c, self.rc)
        if st == "miss":
            return "miss", None, None
        standing = abs(dist(P, self.c) - self.rc) < 1e-9 * (1 + L)
        if round_off(P, self.c, self.rc) > 3e-10 or st == "amb":
            # only clear when all of the ray stays away from the cap's neighbourhood
            t = max(0.0, dot(sub(self.pos, P), d))
            near = dist(madd(P, t, d), self.pos)
            if near > math.hypot(self.D / 2, self.sag) + 1e-3 * (1 + self.rc):
                return "miss", None, None
            return "amb", max(0.0, t - 2 * self.D), None
        for t in (t0, t1):
            if t <= SELF * (1 + L):
                if abs(t) > 1e-9 and not standing and t > -1e-9:
                    return "amb", 0.0, None
                continue
            Q = madd(P, t, d)
            v = sub(Q, self.pos)
            r = norm(perp(v, self.n)) - self.D / 2
            if dot(v, self.n) > self.rc + m or r > m:
                continue
            if t < 1e-6 * (1 + L):
                return "amb", 0.0, None
            if r > -m or dot(v, self.n) > self.rc - m:
                return "amb", t, None
            return "hit", t, (unit(sub(self.c, Q)),)
        return "miss", None, None

    def on_surface(self, Q, tol):
        return abs(dist(Q, self.c) - self.rc) < tol and dot(sub(Q, self.pos), self.n) < self.sag * 1.01 + tol

    def payload_at(self, Q):
        return (unit(sub(self.c, Q)),)

    def bound(self):
        return self.pos, math.hypot(self.D / 2, self.sag)

    def desc(self):
        return "Mirror(%s, circular_concave_spherical, normal=%s, D=%r, f=%r)" % (
            v3.fmt(self.pos), v3.fmt(self.n_raw), self.D, self.f)


class BallBase(Element):
    def hit(self, P, d, L):
        h = dist(P, self.pos) - self.R
        if round_off(P, self.pos, self.R) > 3e-10:
            return "amb", 0.0, None
        st, t0, t1 = sphere_ts(P, d, self.pos, self.R)
        standing = abs(h) < 1e-9 * (1 + L)
        if st == "amb":
            if t0 < -self.R * 0.1 and h > 0 and not standing:
                return "miss", None, None
            return "amb", max(0.0, t0 - self.R * 0.01), None
        if st == "miss":
            return "miss", None, None
        for t in (t0, t1):
            if t <= SELF * (1 + L):
                continue
            if t < 1e-6 * (1 + L):
                return "amb", 0.0, None
            return "hit", t, (unit(sub(madd(P, t, d), self.pos)),)
        if t1 > -1e-9 and not standing:
            return "amb", 0.0, None
        return "miss", None, None

    def on_surface(self, Q, tol):
        return abs(dist(Q, self.pos) - self.R) < tol

    def payload_at(self, Q):
        return (unit(sub(Q, self.pos)),)

    def bound(self):
        return self.pos, self.R


class BallMirror(MirrorMixin, BallBase):
    kind = "mirror"
    sub = "ball"

    def __init__(self, pos, D, **k):
        super().__init__(**k)
        self.pos, self.D, self.R, self.dmd = pos, D, D / 2, None

    def build(self, m):
        return m.Mirror(arr(self.pos, self.style), shape="circular_convex_spherical", D=size(self.D, self.style))

    def desc(self):
        return "Mirror(%s, circular_convex_spherical, D=%r)" % (v3.fmt(self.pos), self.D)


def snell(d, n_in, n1, n2):
    """n_in: unit normal on the side the light comes from. ('dir', out, cond) or ('tir', out, cond) or amb"""
    if dot(d, n_in) > 0:
        n_in = neg(n_in)
    c = -dot(d, n_in)
    if c < 2e-3:
        return ("amb",)
    k = n1 / n2
    s2 = k * k * max(0.0, 1 - c * c)
    if abs(s2 - 1) < 1e-5:
        return ("amb",)
    if s2 > 1:
        return "tir", reflect(d, n_in), 1.0
    ct = math.sqrt(1 - s2)
    return "dir", add(mul(d, k), mul(n_in, k * c - ct)), 1.0 + k / ct


class BallLens(BallBase):
    kind = "lens"
    sub = "ball"
    refractive = True

    def __init__(self, pos, D, index, n_raw=None, **k):
        super().__init__(**k)
        self.pos, self.D, self.R, self.index, self.n_raw = pos, D, D / 2, index, n_raw

    def build(self, m):
        kw = {} if self.n_raw is None else {"normal": arr(self.n_raw, self.style)}
        return m.Lens(arr(self.pos, self.style), shape="spherical", D=size(self.D, self.style), index=size(self.index, self.style), **kw)

    def act(self, Q, d, payload, ray):
        n = payload[0]
        if dot(d, n) < 0:
            r = snell(d, n, 1.0, self.index)
        else:
            r = snell(d, neg(n), self.index, 1.0)
        if r[0] == "amb":
            return r
        ray["last"] = r[0]
        return ("dir",) + r[1:]

    def inside(self, P):
        return dist(P, self.pos) < self.R

    def desc(self):
        return "Lens(%s, spherical, D=%r, index=%r)" % (v3.fmt(self.pos), self.D, self.index)


class IdealLens(Round):
    kind = "ideal"

    def __init__(self, pos, n_raw, D, f, type_, **k):
        super().__init__(**k)
        self.pos, self.n_raw, self.D, self.f, self.type, self.n = pos, n_raw, D, f, type_, unit(n_raw)
        self.sub = type_

    def build(self, m):
        return m.Lens(arr(self.pos, self.style), normal=arr(self.n_raw, self.style), shape="spherical_biconvex",
                      D=size(self.D, self.style), f=size(self.f, self.style), type=self.type)

    def act(self, Q, d, payload, ray):
        n = self.n if dot(d, self.n) > 0 else neg(self.n)
        c = dot(d, n)
        if c < 2e-3:
            return ("amb",)
        r = sub(Q, self.pos)
        if self.type == "ideal":
            # the image of the object point at -2f on this ray is that point inverted through the centre
            v = sub(mul(d, self.f / c), r)
            # (directions within 1e-8 of the axis may be treated as parallel to it)
            return "dir", unit(v), 1.0 + (norm(r) + self.f) / norm(v) / c + (30.0 if dist(d, n) < 3e-8 else 0.0)
        if self.type == "ideal_collimate":
            return "dir", n, 1.0
        F = madd(self.pos, self.f, n)
        return "dir", unit(sub(F, Q)), 1.0 + 1.0 / dist(F, Q)

    def desc(self):
        return "Lens(%s, normal=%s, D=%r, f=%r, type=%s)" % (
            v3.fmt(self.pos), v3.fmt(self.n_raw), self.D, self.f, self.type)


class Pane(Round):
    """a lens left at its default type: its disc is met like any other, and bends light as the surface of glass does (no
    property judges by how much)"""
    kind = "pane"
    sub = "normal"

    def __init__(self, pos, n_raw, D, index, f=None, say=False, **k):
        super().__init__(**k)
        self.pos, self.n_raw, self.D, self.index, self.f, self.say, self.n = pos, n_raw, D, index, f, say, unit(n_raw)
        self.type = "normal"

    def build(self, m):
        kw = {"type": "normal", "shape": "spherical_biconvex"} if self.say else {}
        if self.f is not None:
            kw["f"] = self.f
        if self.index != 1.5 or self.say:
            kw["index"] = self.index
        return m.Lens(arr(self.pos, self.style), normal=arr(self.n_raw, self.style), D=size(self.D, self.style), **kw)

    def act(self, Q, d, payload, ray):
        r = snell(d, self.n, 1.0, self.index)
        return r if r[0] == "amb" else ("dir",) + r[1:]

    def desc(self):
        return "Lens(%s, normal=%s, D=%r, index=%r)" % (v3.fmt(self.pos), v3.fmt(self.n_raw), self.D, self.index)


class Grating(Rect):
    kind = "grating"
    sub = "grating"

    def __init__(self, pos, n_raw, tan_raw, h, w, G, own=None, **k):
        super().__init__(**k)
        self.own = own                                    # the grating's own order: the light's is what counts
        self.pos, self.n_raw, self.tan_raw, self.h, self.w, self.G = pos, n_raw, tan_raw, h, w, G
        self.n, self.tan = unit(n_raw), unit(tan_raw)
        self.tan2 = cross(self.n, self.tan)

    def build(self, m):
        return m.Grating(arr(self.pos, self.style), normal=arr(self.n_raw, self.style),
                         tangent=arr(self.tan_raw, self.style), h=size(self.h, self.style), w=size(self.w, self.style), G=size(self.G, self.style), **({} if self.own is None else {"order": self.own}))

    def act(self, Q, d, payload, ray):
        if ray["order"] == 0:
            return "dir", reflect(d, self.n), 1.0
        n = self.n if dot(d, self.n) < 0 else neg(self.n)     # on the incident side
        a = dot(d, self.tan)                                  # along the grooves: unchanged
        p = perp(d, self.tan)                                 # in the dispersion plane
        m = norm(p)
        if m < 2e-2:
            return ("amb",)
        p = mul(p, 1 / m)
        u = cross(n, self.tan)                                # in the surface, across the grooves
        sa = -dot(p, u)                                       # sin(alpha), signed towards +u
        if sa < 0:
            u, sa = neg(u), -sa                               # u now points to the side the light comes from
        if sa > 1 - 2e-6:
            return ("amb",)
        sb = self.G * ray["order"] * ray["wavelength"] / 1e6 - sa
        if abs(abs(sb) - 1) < 1e-6:
            return ("amb",)
        if abs(sb) > 1:
            return ("block",)
        cb = math.sqrt(1 - sb * sb)
        out = add(mul(self.tan, a), mul(add(mul(u, sb), mul(n, cb)), m))
        ca = math.sqrt(1 - sa * sa)
        if sa < 1e-8:
            alt = add(mul(self.tan, a), mul(add(mul(u, -sb), mul(n, cb)), m))
            ray["alt"] = alt
        return "dir", out, 1.0 + 1 / cb + 1 / m + 1 / ca

    def desc(self):
        return "Grating(%s, normal=%s, tangent=%s, h=%r, w=%r, G=%r)" % (
            v3.fmt(self.pos), v3.fmt(self.n_raw), v3.fmt(self.tan_raw), self.h, self.w, self.G)


class Detector(Rect):
    kind = "detector"
    sub = "detector"

    def __init__(self, pos, n_raw, tan_raw, h, w, **k):
        super().__init__(**k)
        self.pos, self.n_raw, self.tan_raw, self.h, self.w = pos, n_raw, tan_raw, h, w
        self.n, self.tan = unit(n_raw), unit(tan_raw)
        self.tan2 = cross(self.n, self.tan)

    def build(self, m):
        return m.Detector(arr(self.pos, self.style), normal=arr(self.n_raw, self.style),
                          tangent=arr(self.tan_raw, self.style), h=size(self.h, self.style), w=size(self.w, self.style))

    def act(self, Q, d, payload, ray):
        return ("block",)

    def desc(self):
        return "Detector(%s, normal=%s, tangent=%s, h=%r, w=%r)" % (
            v3.fmt(self.pos), v3.fmt(self.n_raw), v3.fmt(self.tan_raw), self.h, self.w)


class Inert(Element):
    """annotations, filters and windows do not take part in tracing"""
    kind = "inert"

    def __init__(self, cls, pos, n_raw, **k):
        super().__init__(**k)
        self.cls, self.pos, self.n_raw, self.sub = cls, pos, n_raw, cls

    def build(self, m):
        return getattr(m, self.cls)(arr(self.pos, self.style), arr(self.n_raw, self.style), None)

    def hit(self, P, d, L):
        return "miss", None, None

    def bound(self):
        return self.pos, 0.0

    def desc(self):
        return "%s(%s, %s)" % (self.cls, v3.fmt(self.pos), v3.fmt(self.n_raw))


# ----------------------------------------------------------------- CSG

class SphereLeaf:
    def __init__(self, c, R, style="float"):
        self.c, self.R, self.style = c, R, style

    def ts(self, P, d):
        return sphere_ts(P, d, self.c, self.R)

    def sd(self, P):
        return dist(P, self.c) - self.R

    def out_normal(self, Q):
        return unit(sub(Q, self.c))

    def build(self, m):
        return m.Sphere(arr(self.c, self.style), R=size(self.R, self.style))

    def bound(self):
        return self.c, self.R

    def err(self, P):
        return round_off(P, self.c, self.R)

    def desc(self):
        return "Sphere(%s, R=%r)" % (v3.fmt(self.c), self.R)


class CylLeaf:
    def __init__(self, c, a_raw, R, style="float"):
        self.c, self.a_raw, self.R, self.style, self.a = c, a_raw, R, style, unit(a_raw)

    def ts(self, P, d):
        return cyl_ts(P, d, self.c, self.a, self.R)

    def sd(self, P):
        return norm(perp(sub(P, self.c), self.a)) - self.R

    def out_normal(self, Q):
        return unit(perp(sub(Q, self.c), self.a))

    def build(self, m):
        return m.InfiniteCylinder(arr(self.c, self.style), arr(self.a_raw, self.style), R=size(self.R, self.style))

    def bound(self):
        return None

    def err(self, P):
        return round_off(P, self.c, self.R)

    def desc(self):
        return "InfiniteCylinder(%s, %s, R=%r)" % (v3.fmt(self.c), v3.fmt(self.a_raw), self.R)


def leaves(tree):
    if isinstance(tree, tuple):
        return leaves(tree[1]) + leaves(tree[2])
    return [tree]


def member(tree, inside):
    """membership from the leaves' membership (dict id -> bool)"""
    if isinstance(tree, tuple):
        op, a, b = tree
        x, y = member(a, inside), member(b, inside)
        return (x or y) if op == "union" else ((x and y) if op == "intersect" else (x and not y))
    return inside[id(tree)]


def tree_desc(tree):
    if isinstance(tree, tuple):
        return "%s(%s, %s)" % (tree[0], tree_desc(tree[1]), tree_desc(tree[2]))
    return tree.desc()


def build_tree(tree, m, share=False):
    """with share, a primitive that is in several places is one and the same object"""
    made = {}

    def leaf(lf):
        if not share:
            return lf.build(m)
        if id(lf) not in made:
            made[id(lf)] = lf.build(m)
        return made[id(lf)]

    def fill(node, spec):
        for child, ins, get in ((spec[1], node.insertLeft, node.getLeftChild),
                                (spec[2], node.insertRight, node.getRightChild)):
            if isinstance(child, tuple):
                ins(child[0])
                fill(get(), child)
            else:
                ins(leaf(child))
        return node
    if isinstance(tree, tuple):
        return fill(m.BinaryTree(tree[0]), tree)
    return m.BinaryTree(leaf(tree))


def tree_first_change(tree, P, d, L):
    """first boundary crossing of the solid along the ray, by interval membership.
    ('hit', t, leaf, inside_before) | ('miss', None, None, inside) | ('amb', t)"""
    lv = list({id(lf): lf for lf in leaves(tree)}.values())     # one primitive can be in several places
    ev = []
    for lf in lv:
        st, t0, t1 = lf.ts(P, d)
        if st == "amb":
            if t0 is None:
                return ("amb", 0.0)
            if t0 > -0.01 * lf.R * 10:
                ev.append((max(t0, 0.0), lf, "amb"))
            continue
        if st == "miss":
            continue
        for t in (t0, t1):
            if t > -1e-6 * (1 + L):
                ev.append((t, lf, ""))
    ev.sort(key=lambda e: e[0])
    ahead = []
    for t, lf, q in ev:
        if q == "amb":
            ahead.append((t, lf, q))
        elif t <= SELF * (1 + L):
            if t < -SELF * (1 + L) * 10 and t > -1e-6 * (1 + L) and abs(lf.sd(P)) > SELF * (1 + L) * 10:
                # a crossing just behind the start which is not the surface the ray stands on
                ahead.append((0.0, lf, "amb"))
        elif t < 1e-6 * (1 + L):
            ahead.append((0.0, lf, "amb"))
        else:
            ahead.append((t, lf, q))
    ahead.sort(key=lambda e: e[0])
    start = 0.0
    first = ahead[0][0] if ahead else 10.0 * (1 + L)

    def at(t):
        Q = madd(P, t, d)
        return member(tree, {id(lf): lf.sd(Q) < 0 for lf in lv})
    before = at(0.5 * (start + first))
    for k, (t, lf, q) in enumerate(ahead):
        if q == "amb":
            return ("amb", max(0.0, t - 0.3 * lf.R))
        nxt = ahead[k + 1][0] if k + 1 < len(ahead) else t + 1.0 + L
        if nxt - t < 1e-5 * (1 + L):
            return ("amb", t)
        after = at(0.5 * (t + nxt))
        if after != before:
            if abs(dot(d, lf.out_normal(madd(P, t, d)))) < 2e-3:
                return ("amb", t)
            return ("hit", t, lf, before)
    return ("miss", None, None, before)


class CompoundEl(Element):
    kind = "compound"

    def __init__(self, tree, behavior, index, **k):
        super().__init__(**k)
        self.tree, self.behavior, self.index, self.share = tree, behavior, index, False
        self.refractive = behavior == "refract"
        self.sub = behavior

    def build(self, m):
        t = build_tree(self.tree, m, self.share)
        if self.behavior == "reflect":
            return m.Compound(t, surface_behavior="reflect")
        return m.Compound(t, surface_behavior="refract", index=size(self.index, self.style))

    def hit(self, P, d, L):
        for lf in leaves(self.tree):
            if lf.err(P) > 3e-10:
                return "amb", 0.0, None
        r = tree_first_change(self.tree, P, d, L)
        if r[0] == "hit":
            return "hit", r[1], (r[2].out_normal(madd(P, r[1], d)), r[3])
        if r[0] == "amb":
            return "amb", r[1], None
        return "miss", None, None

    def act(self, Q, d, payload, ray):
        n, inside_before = payload
        if self.behavior == "reflect":
            return "dir", reflect(d, n), 1.0
        n1, n2 = (self.index, 1.0) if inside_before else (1.0, self.index)
        if abs(dot(d, n)) < 5e-3:
            return ("amb",)
        r = snell(d, n, n1, n2)
        if r[0] == "amb":
            return r
        ray["last"] = r[0]
        return ("dir",) + r[1:]

    def inside(self, P):
        return member(self.tree, {id(lf): lf.sd(P) < 0 for lf in leaves(self.tree)})

    def on_surface(self, Q, tol):
        return any(abs(lf.sd(Q)) < tol for lf in leaves(self.tree))

    def payload_at(self, Q):
        return None

    def bound(self):
        b = [lf.bound() for lf in leaves(self.tree)]
        if any(x is None for x in b):
            return None
        c = mul(b[0][0], 1.0)
        return c, max(dist(c, x[0]) + x[1] for x in b)

    def desc(self):
        return "Compound(%s, %s, index=%r)" % (tree_desc(self.tree), self.behavior, self.index)
