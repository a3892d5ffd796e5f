"""Workload for constructive solid geometry, and the fixed probes of the known findings."""
import math

import numpy as np

from . import sut, scenes, elements as E, v3
from .v3 import *
from .trace import run_monitored, Shot


def convex(ctx, c, S, depth=1, cyl=True):
    """a sphere, a cylinder, or an intersection (of intersections) of those: convex"""
    q = ctx.u()
    if depth > 0 and q < 0.35:
        return ("intersect", convex(ctx, c, S, depth - 1, cyl), convex(ctx, c, S, depth - 1, cyl))
    p = add(c, mul(scenes.rand_unit(ctx), S * ctx.u(0, 0.8)))
    if ctx.chance(0.12):
        p = c
    if cyl and ctx.chance(0.3):
        return E.CylLeaf(p, scenes.raw(ctx, scenes.rand_unit(ctx) if ctx.chance(0.6) else ctx.pick(scenes.AXES)),
                         S * ctx.u(0.2, 0.9))
    return E.SphereLeaf(p, S * ctx.u(0.4, 1.3))


def any_tree(ctx, c, S, depth):
    if depth == 0 or ctx.chance(0.15):
        return convex(ctx, c, S, 0)
    return (ctx.pick(["union", "intersect", "difference"]), any_tree(ctx, c, S, depth - 1), any_tree(ctx, c, S, depth - 1))


def around_point(ctx, c, S, cyl=True):
    """a sphere or a cylinder that contains c"""
    r = S * ctx.u(0.5, 1.5)
    p = madd(c, r * ctx.u(0, 0.9), scenes.rand_unit(ctx))
    if cyl and ctx.chance(0.25):
        return E.CylLeaf(p, scenes.raw(ctx, scenes.rand_unit(ctx)), r)
    return E.SphereLeaf(p, r)


def deep_convex(ctx, c, S, n):
    """the intersection of n primitives, nested in any way; c is in all of them"""
    if n <= 1:
        return around_point(ctx, c, S)
    k = ctx.pick([1, n - 1, ctx.i(1, n - 1)])
    return ("intersect", deep_convex(ctx, c, S, k), deep_convex(ctx, c, S, n - k))


def chain(ctx, c, S, n):
    """operators one below the other, n deep"""
    t = convex(ctx, c, S, 0)
    for _ in range(n):
        o = convex(ctx, c, S, 0)
        op = ctx.pick(["union", "intersect", "difference"])
        t = (op, t, o) if ctx.chance(0.5) else (op, o, t)
    return t


def union_chain(ctx, c, S, n):
    t = convex(ctx, c, S)
    for _ in range(n):
        o = convex(ctx, add(c, mul(scenes.rand_unit(ctx), S * ctx.u(0, 2.5))), S)
        t = ("union", t, o) if ctx.chance(0.5) else ("union", o, t)
    return t


def shared(ctx, c, S):
    """solids described with the same primitive more than once: parts with common surfaces"""
    a, b, o = [around_point(ctx, c, S) for _ in range(3)]
    ab, ba, ao = ("intersect", a, b), ("intersect", b, a), ("intersect", a, o)
    k, x, y = ctx.pick([("intersect", a, a), ("intersect", a, ab), ("intersect", ab, b), ("intersect", ab, ao), ("intersect", ab, ba),
                        ("intersect", ("intersect", ab, o), ba), ("intersect", o, ("intersect", ab, ao)),
                        ("union", a, a), ("union", a, ab), ("union", ba, a), ("union", ab, ao), ("union", ab, ba),
                        ("difference", a, a), ("difference", a, ab), ("difference", ab, a), ("difference", ab, ao), ("difference", ab, ab)])
    return k, x, y


def scope_tree(ctx, c, S):
    """a tree whose ray hits the code must get right, and whether only from outside every leaf"""
    k = ctx.pick(["leaf", "intersect", "union", "difference", "difference", "nested", "unions", "deep", "shared"])
    if k == "shared":
        return k, shared(ctx, c, S), False
    if k == "leaf":
        return k, convex(ctx, c, S, 0), False
    if k == "unions":
        return k, union_chain(ctx, c, S, ctx.i(2, 3) if ctx.chance(0.8) else ctx.i(4, 9)), True
    if k == "deep":
        n = ctx.i(4, 12)
        t = deep_convex(ctx, c, S, n)
        if ctx.chance(0.4):
            t = (ctx.pick(["union", "difference"]),) + ctx.pick([(t, convex(ctx, c, S, 0)), (convex(ctx, c, S, 0), t)])
        return k, t, False
    if k == "nested":
        return k, ("intersect", convex(ctx, c, S, 2), convex(ctx, c, S, 1)), False
    dep = ctx.pick([0, 0, 1])
    return k, (k, convex(ctx, c, S, dep), convex(ctx, c, S, dep)), False


def sd_ok(tree, P, m):
    return all(abs(lf.sd(P)) > m for lf in E.leaves(tree))


# ------------------------------------------------------------------ known findings (fixed inputs)

def _tree(m, spec):
    if isinstance(spec, tuple) and spec[0] in ("union", "intersect", "difference"):
        t = m.BinaryTree(spec[0])
        t.leftChild, t.rightChild = _tree(m, spec[1]), _tree(m, spec[2])
        return t
    if spec[0] == "S":
        return m.BinaryTree(m.Sphere(np.array(spec[1], dtype=float), R=spec[2]))
    return m.BinaryTree(m.InfiniteCylinder(np.array(spec[1], dtype=float), np.array(spec[2], dtype=float), R=spec[3]))


A = ("S", (0, 0, 0), 2.0)
B = ("S", (3, 0, 0), 2.0)
HOLE = ("S", (-1.5, 0, 0), 1.0)
ROD = ("C", (0, 0, 0), (0, 0, 1), 1.0)
BALL = ("S", (0, 0, 0), 5.0)
# Each: a solid and a ray. Where it first crosses the solid's surface is found by membership (probe_truth).
PROBES = [
    ("intersect-of-union", ("intersect", ("S", (4, 0, 0), 3.0), ("union", A, ("S", (1, 0, 0), 2.0))), (-9, 0, 0), (1, 0, 0)),
    ("intersect-of-difference", ("intersect", ("S", (4, 0, 0), 5.0), ("difference", A, HOLE)), (-9, 0.5, 0), (1, 0, 0)),
    ("difference-of-union", ("difference", ("union", A, B), ("S", (-2, 0, 0), 1.5)), (-9, 0, 0), (1, 0, 0)),
    ("union-of-difference-from-inside", ("union", ("difference", ("S", (0, 0, 0), 10.0), ("S", (1, 0, 0), 1.0)),
                                         ("S", (1, 0, 0), 4.0)), (-2, 0, 0), (1, 0, 0)),
    ("axis-parallel-ray-inside-cylinder-intersect", ("intersect", ROD, BALL), (0.5, 0, -9), (0, 0, 1)),
    ("axis-parallel-ray-inside-cylinder-union", ("union", ROD, BALL), (0.5, 0, -9), (0, 0, 1)),
    ("axis-parallel-ray-inside-cylinder-difference", ("difference", BALL, ROD), (0.5, 0, -9), (0, 0, 1)),
    # close neighbours which the code gets right: they must not be reported
    ("union-of-union-from-inside", ("union", ("union", A, B), ("S", (6, 0, 0), 2.0)), (1.5, 0, 0), (1, 0, 0)),
    ("convex-intersect", ("intersect", BALL, ("S", (4, 0, 0), 3.0)), (-9, 0.5, 0), (1, 0, 0)),
    ("convex-difference", ("difference", BALL, ("S", (-4, 0, 0), 3.0)), (-9, 0.5, 0), (1, 0, 0)),
    ("convex-union-from-inside", ("union", A, B), (-1, 0.5, 0), (1, 0, 0)),
    ("union-of-union-from-outside", ("union", ("union", B, A), ("S", (6, 0, 0), 2.0)), (-9, 0.5, 0), (1, 0, 0)),
    ("oblique-ray-inside-cylinder-intersect", ("intersect", ROD, BALL), (0.5, 0, -9), (0, 0.02, 1)),
    ("axis-parallel-ray-outside-cylinder-difference", ("difference", BALL, ROD), (1.5, 0, -9), (0, 0, 1)),
]


def probe_truth(spec, P, d):
    """first boundary crossing by brute membership along the ray (fine march + bisection), None if there is none"""
    def inside(spec, X):
        if spec[0] in ("union", "intersect", "difference"):
            x, y = inside(spec[1], X), inside(spec[2], X)
            return {"union": x or y, "intersect": x and y, "difference": x and not y}[spec[0]]
        if spec[0] == "S":
            return dist(X, spec[1]) < spec[2]
        a = unit(spec[2])
        return norm(perp(sub(X, spec[1]), a)) < spec[3]
    step = 0.003
    t = 1e-6
    s0 = inside(spec, madd(P, t, d))
    while t < 60:
        if inside(spec, madd(P, t + step, d)) != s0:
            lo, hi = t, t + step
            for _ in range(60):
                m = 0.5 * (lo + hi)
                lo, hi = (m, hi) if inside(spec, madd(P, m, d)) == s0 else (lo, m)
            return madd(P, lo, d)
        t += step
    return None


def probes():
    out = []
    for key, spec, P, d in PROBES:
        d = unit(d)
        truth = probe_truth(spec, P, d)
        comp = sut.Compound(_tree(sut, spec), surface_behavior="reflect")
        ray = sut.Ray(np.array(P, dtype=float), np.array(d, dtype=float))
        try:
            ray.run(60.0, optic_list=[comp], max_interactions=1)
            end = v3.tup(ray.position)
        except Exception as e:
            out.append({"key": key, "message": "tracing raised %r" % e, "witness": {"solid": spec, "P": P, "d": d}})
            continue
        want = truth if truth is not None else madd(P, 60.0, d)
        if dist(end, want) > 1e-6:
            out.append({"key": key, "message": "a ray does not stop where it first crosses the solid's surface",
                        "witness": {"solid": spec, "P": P, "d": d, "got": end, "expected": want}})
    return out
