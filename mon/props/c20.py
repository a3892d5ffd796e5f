"""C20 the matrices that align one vector with another, and the homogeneous 4x4 matrices."""
import math

import numpy as np

from ..core import Prop, Family, Skip
from ..common import *
from .. import sut, scenes, elements as E, v3
from ..v3 import *


def pair(ctx):
    """two directions at any angle, including exactly equal, exactly opposite and nearly so"""
    kind = ctx.pick(["free", "free", "axis", "equal", "opposite", "nearly equal", "nearly opposite"])
    a = scenes.rand_unit(ctx)
    if kind == "free":
        b = scenes.rand_unit(ctx)
    elif kind == "axis":
        a, b = unit(ctx.pick(scenes.INT_NORMALS)), unit(ctx.pick(scenes.INT_NORMALS))
    else:
        if ctx.chance(0.4):
            a = unit(ctx.pick(scenes.INT_NORMALS))
        b = a if "equal" in kind else neg(a)
        if "nearly" in kind:
            b = unit(madd(b, 10.0 ** ctx.u(-12, -1), v3.rodrigues(v3.any_perp(b), b, ctx.u(0, 6.3))))
    return kind, mul(a, ctx.logu(0.01, 100)), mul(b, ctx.logu(0.01, 100))


def proper(M):
    return M.shape == (3, 3) and np.all(np.isfinite(M)) and np.max(np.abs(M @ M.T - np.eye(3))) < 1e-9 and abs(np.linalg.det(M) - 1) < 1e-9


def align(ctx):
    kind, a, b = pair(ctx)
    ua, ub = unit(a), unit(b)
    th = math.atan2(norm(cross(ua, ub)), dot(ua, ub))
    ctx.desc = {"kind": kind, "a": a, "b": b, "angle": th}
    A, B = np.array(a), np.array(b)
    M2 = np.asarray(sut.go.rotation_matrix2(A, B), dtype=float)
    M4 = np.asarray(sut.go.rotation_matrix4(A, B), dtype=float)
    MT = np.asarray(sut.go.rotation_matrix(A, B), dtype=float)
    ctx.check(np.array_equal(A, np.array(a)) and np.array_equal(B, np.array(b)), "the arguments were changed")
    ctx.check(M4.shape == (4, 4) and np.array_equal(M4[3], [0, 0, 0, 1]) and np.array_equal(M4[:3, 3], [0, 0, 0]), "the 4x4 matrix does more than rotate",
              got=M4)
    for name, M in (("rotation_matrix2", M2), ("rotation_matrix4", M4[:3, :3]), ("rotation_matrix", MT.T if MT.shape == (3, 3) else MT)):
        ctx.check(proper(M), "%s: not a proper rotation" % name, M=M)
        ctx.check(dist(v3.tup(M.dot(np.array(ua))), ub) < 1e-8, "%s: does not turn the first vector onto the second" % name, M=M, got=M.dot(np.array(ua)))
        if 1 + math.cos(th) > 2e-3:
            ctx.check(abs(np.trace(M) - (1 + 2 * math.cos(th))) < 1e-8, "%s: turns by more than the angle between the vectors" % name, M=M,
                      trace=np.trace(M))
        if th > 1e-6 and 1 + math.cos(th) > 2e-3:
            ax = unit(cross(ua, ub))
            ctx.check(dist(v3.tup(M.dot(np.array(ax))), ax) < 1e-7, "%s: the vector perpendicular to both moves" % name, M=M)
        ctx.ev("%s: %s" % (name, kind))
    ctx.seen(kind, quant((th,)))


def homogeneous(ctx):
    s = tuple(ctx.pick([-1, 1]) * ctx.logu(0.01, 100) if ctx.chance(0.8) else float(ctx.i(-4, 4)) for _ in range(3))
    t = mul(scenes.rand_unit(ctx), ctx.logu(0.01, 100)) if ctx.chance(0.7) else tuple(float(ctx.i(-9, 9)) for _ in range(3))
    p, q = (mul(scenes.rand_unit(ctx), ctx.logu(0.01, 100)) for _ in range(2))
    kind, a, b = pair(ctx)
    def given(v):
        """arrays, or plain sequences in which whole numbers may be written as such"""
        if ctx.chance(0.5):
            return np.array(v)
        v = [int(x) if x == int(x) and ctx.chance(0.7) else x for x in v]
        ctx.ev("plain sequences")
        return ctx.pick([list, tuple])(v)
    if ctx.chance(0.3):
        s = (float(ctx.i(1, 4)),) + s[1:]
        t = (float(ctx.i(-4, 4)),) + t[1:]
    ctx.desc = {"scale": s, "shift": t, "p": p}
    S = np.asarray(sut.go.scaling_matrix4(given(s)))
    T = np.asarray(sut.go.translation_matrix4(given(t)))
    R = np.asarray(sut.go.rotation_matrix4(np.array(a), np.array(b)))
    pt, dr = np.array(p + (1.0,)), np.array(q + (0.0,))

    def close(x, y, sc):
        return np.asarray(x).shape == (4,) and np.max(np.abs(np.asarray(x) - np.array(y))) < 1e-12 * (1 + sc)
    ctx.check(close(S.dot(pt), (p[0] * s[0], p[1] * s[1], p[2] * s[2], 1.0), norm(p) * norm(s)), "scaling a point", got=S.dot(pt))
    ctx.check(close(S.dot(dr), (q[0] * s[0], q[1] * s[1], q[2] * s[2], 0.0), norm(q) * norm(s)), "scaling a direction", got=S.dot(dr))
    ctx.check(close(T.dot(pt), add(p, t) + (1.0,), norm(p) + norm(t)), "translating a point", got=T.dot(pt))
    ctx.check(close(T.dot(dr), dr, norm(q)), "a translation moves a direction", got=T.dot(dr))
    ctx.check(abs(np.linalg.norm(R.dot(pt)[:3]) - norm(p)) < 1e-9 * (1 + norm(p)) and R.dot(pt)[3] == 1 and R.dot(dr)[3] == 0, "rotating a point", got=R.dot(pt))
    # carrying a point to object space and back
    if all(abs(x) > 1e-3 for x in s):
        Sb = np.asarray(sut.go.scaling_matrix4(1 / np.array(s)))
        Tb = np.asarray(sut.go.translation_matrix4(-np.array(t)))
        Rb = np.asarray(sut.go.rotation_matrix4(np.array(b), np.array(a)))
        there = S.dot(R.dot(T.dot(pt)))
        if dot(unit(a), unit(b)) > -0.99:
            back = Tb.dot(Rb.dot(Sb.dot(there)))
            ctx.check(close(back, pt, 1e4 * (norm(p) + norm(t)) * max(abs(x) for x in s) / min(abs(x) for x in s)),
                      "translate, rotate, scale and back does not return to the start", got=back)
            ctx.ev("round trips")
    ctx.ev("homogeneous matrices applied", 5)
    ctx.seen(quant(s), quant(t))


PROP = Prop(
    "C20",
    "pairs of directions of any length at any angle, exactly and nearly equal (down to 1e-12) and exactly and nearly opposite, whole-number and "
    "random; scaling and translation of points (w=1) and directions (w=0), and round trips through object space",
    [Family("align", align, 14000), Family("homogeneous", homogeneous, 12000)],
    required=["%s: %s" % (m, k) for m in ("rotation_matrix", "rotation_matrix2", "rotation_matrix4") for k in
              ("free", "axis", "equal", "opposite", "nearly equal", "nearly opposite")] + ["round trips", "plain sequences", "homogeneous matrices applied"],
    assumptions=["the turn is required to be the direct one only up to 177 degrees; beyond that any proper rotation that aligns will do",
                 "rotation_matrix is the row-vector form (v1 M = v2), as the drawing code uses it"])
