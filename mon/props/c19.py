"""C19 vector algebra: unit vectors, distances, angles, projections, axis-angle rotations."""
import math

import numpy as np

from ..core import Prop, Family, Skip
from ..common import *
from .. import sut, scenes, elements as E, v3
from ..v3 import *

U = 1e-13


def vec(ctx, lo=1e-3, hi=1e3):
    if ctx.chance(0.15):                       # nearly, or only just, a unit vector
        return mul(scenes.rand_unit(ctx) if ctx.chance(0.6) else ctx.pick(scenes.AXES), 1 + ctx.pick([-1, 1]) * 10.0 ** ctx.u(-9, -1))
    if ctx.chance(0.3):
        while True:
            v = tuple(float(ctx.i(-6, 6)) for _ in range(3))
            if norm(v) > 0:
                return v
    return mul(scenes.rand_unit(ctx), ctx.logu(lo, hi))


def np_vec(ctx, v):
    if ctx.chance(0.25) and all(abs(x) < 1e6 and x == int(x) for x in v):
        return np.array([int(x) for x in v])
    return np.array(v, dtype=float)


def rotations(ctx):
    """the axis-angle matrix against Rodrigues' formula"""
    a = vec(ctx)
    k = unit(a)
    th = ctx.pick([ctx.u(-7, 7), ctx.u(-7, 7), ctx.pick([-2, -1.5, -1, -0.5, 0, 0.5, 1, 1.5, 2, 4]) * math.pi, ctx.u(-300, 300), 10.0 ** ctx.u(-9, -2)])
    x = vec(ctx)
    form = ctx.pick(["array", "array", "list", "tuple"])
    axis = {"array": np_vec(ctx, a), "list": list(a), "tuple": tuple(a)}[form]
    ctx.desc = {"axis": a, "theta": th, "x": x, "form": form}
    M = np.asarray(sut.go.rotation_matrix_axis_angle(axis, th))
    ctx.check(M.shape == (3, 3), "not a 3x3 matrix", got=M)
    tol = U * (10 + abs(th))
    got = v3.tup(M.dot(np.array(x)))
    want = v3.rodrigues(x, k, th)
    ctx.check(dist(got, want) < tol * (1 + norm(x)) * 10, "a vector is not turned by theta counterclockwise about the axis", got=got, expected=want)
    ctx.check(np.max(np.abs(M @ M.T - np.eye(3))) < 1e-13 and abs(np.linalg.det(M) - 1) < 1e-13, "the matrix is not a proper rotation", M=M)
    ctx.check(dist(v3.tup(M.dot(np.array(a))), a) < 1e-12 * norm(a), "the axis does not stay where it is")
    s = ctx.u(-4, 4)
    M2 = np.asarray(sut.go.rotation_matrix_axis_angle(axis, s))
    M3 = np.asarray(sut.go.rotation_matrix_axis_angle(axis, s + th))
    ctx.check(np.max(np.abs(M2 @ M - M3)) < tol * 20, "two turns about one axis do not add up")
    M4 = np.asarray(sut.go.rotation_matrix_axis_angle(mul(a, -1.0), -th))
    M5 = np.asarray(sut.go.rotation_matrix_axis_angle(np.array(a) * ctx.logu(1e-3, 1e3), th))
    ctx.check(np.max(np.abs(M4 - M)) < tol * 10 and np.max(np.abs(M5 - M)) < tol * 10, "the same turn about the reversed or rescaled axis differs")
    ctx.ev("axis-angle rotations")
    ctx.seen(quant(k), th)


def angles(ctx):
    """angles from 1e-11 to pi - 1e-11, either sign, any lengths"""
    n = scenes.rand_unit(ctx) if ctx.chance(0.6) else ctx.pick(scenes.AXES)
    e = v3.any_perp(n)
    e = v3.rodrigues(e, n, ctx.u(0, 6.3))
    small = 10.0 ** ctx.u(-11, 0)
    th = ctx.pick([ctx.u(0, math.pi), small, math.pi - small, 0.0, math.pi, math.pi / 2])
    a = mul(e, ctx.logu(1e-3, 1e3))
    b = mul(v3.rodrigues(e, n, -th), ctx.logu(1e-3, 1e3))
    A, B = np.array(a), np.array(b)
    ctx.desc = {"a": a, "b": b, "n": n, "theta": th}
    got = float(sut.go.angle_between(A, B))
    near = min(th, math.pi - th)
    tol = 1e-12 + min(4e-8, 1e-15 / max(near, 1e-12))
    ctx.check(abs(got - th) < tol, "the angle between two vectors is wrong", got=got, expected=th)
    ctx.check(abs(float(sut.go.angle_between(B, A)) - got) < tol, "the unsigned angle depends on the order")
    # signed: positive when turning v2 onto v1 goes counterclockwise about the normal
    s = float(sut.go.angle_between(A, B, np.array(n)))
    ctx.check(abs(s - th) < 1e-12 or (th > math.pi - 1e-9 and abs(abs(s) - math.pi) < 1e-9), "the signed angle is wrong", got=s, expected=th)
    r = float(sut.go.angle_between(B, A, np.array(n)))
    m = float(sut.go.angle_between(A, B, -np.array(n)))
    if th < math.pi - 1e-9:
        ctx.check(abs(r + th) < 1e-12 and abs(m + th) < 1e-12, "swapping the vectors or reversing the normal must change the sign", got=[r, m])
    back = np.asarray(sut.go.rotation_matrix_axis_angle(n, s)).dot(B)
    ctx.check(dist(unit(v3.tup(back)), unit(a)) < 1e-12, "turning v2 by the signed angle about the normal does not give v1's direction", got=back)
    ctx.ev("angles (%s)" % ("tiny" if near < 1e-3 else "generic"))
    # general vectors, not in a given plane
    x, y = vec(ctx), vec(ctx)
    c, sn = dot(unit(x), unit(y)), norm(cross(unit(x), unit(y)))
    want = math.atan2(sn, c)
    got = float(sut.go.angle_between(np_vec(ctx, x), np_vec(ctx, y)))
    ctx.check(abs(got - want) < 5e-8 if sn < 1e-3 else abs(got - want) < 1e-11, "the angle between two vectors is wrong", x=x, y=y, got=got, expected=want)
    z = -2.5 * np.array(x)
    for u, w in ((x, 0.0), (tuple(z), math.pi)):
        got = float(sut.go.angle_between(np.array(x), np.array(u)))
        ctx.check(math.isfinite(got) and abs(got - w) < 5e-8, "the angle between parallel vectors is wrong", x=x, u=u, got=got, expected=w)
    ctx.seen(quant((th,)))


def projections(ctx):
    x, n = vec(ctx), vec(ctx)
    form = ctx.pick([np.array, np.array, list])
    X, N = form(x), form(n)
    ctx.desc = {"x": x, "n": n}
    p = v3.tup(sut.go.project_onto_plane(X, N))
    want = perp(x, unit(n))
    tol = 1e-13 * (1 + norm(x)) * 10
    ctx.check(dist(p, want) < tol, "the projection onto a plane is wrong", got=p, expected=want)
    ctx.check(abs(dot(p, unit(n))) < tol, "the projection is not in the plane")
    pp = v3.tup(sut.go.project_onto_plane(np.array(p), np.array(n)))
    ctx.check(dist(pp, p) < tol, "projecting twice changes the projection")
    q = v3.tup(sut.go.project_onto_plane(np.array(x), np.array(n) * -ctx.logu(1e-3, 1e3)))
    ctx.check(dist(q, p) < tol * 3, "the projection depends on the length or sign of the normal")
    z = v3.tup(sut.go.project_onto_plane(np.array(n, dtype=float), np.array(n)))
    ctx.check(norm(z) < 1e-12 * (1 + norm(n)), "the normal's projection is not zero")
    ctx.ev("projections")
    # units and distances
    a, b = vec(ctx, 1e-80, 1e80) if ctx.chance(0.3) else vec(ctx), vec(ctx)
    u = v3.tup(sut.go.unit_vector(np_vec(ctx, a)))
    ctx.check(dist(u, unit(a)) < 1e-14 and abs(norm(u) - 1) < 1e-14, "unit_vector is wrong", got=u, a=a)
    A, B = np_vec(ctx, x), np_vec(ctx, b)
    d = float(sut.go.distance_between(A, B))
    ctx.check(abs(d - dist(x, b)) < 1e-14 * (1 + d) * 5 and abs(d - float(sut.go.distance_between(B, A))) < 1e-14 * (1 + d) and
              float(sut.go.distance_between(A, A)) == 0.0, "distance_between is wrong", got=d, expected=dist(x, b), a=x, b=b)
    ctx.ev("unit vectors and distances")
    ctx.seen(quant(x), quant(n))


PROP = Prop(
    "C19",
    "random and small-integer vectors (lengths 1e-3..1e3, unit vectors 1e-80..1e80), arrays and sequences, angles from 1e-7 to pi-1e-7, exact "
    "multiples of pi/2 and many turns; oracle: Rodrigues' formula, atan2(|axb|, a.b), x-(x.n)n in plain floats, and the algebraic laws",
    [Family("rotations", rotations, 12000), Family("angles", angles, 12000), Family("projections", projections, 12000)],
    required=["axis-angle rotations", "angles (tiny)", "angles (generic)", "projections", "unit vectors and distances"],
    assumptions=["signed angles: the normal is a unit vector perpendicular to both vectors"])
