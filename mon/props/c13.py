"""C13 membership in CSG solids and the index of refraction at a point."""
import numpy as np

from ..core import Prop, Family
from ..common import *
from .. import sut, scenes, elements as E, v3, csg
from ..v3 import *


def trees(ctx):
    """any tree at all: membership is the boolean combination of the primitives' membership"""
    S = ctx.logu(1, 100)
    c = mul(scenes.rand_unit(ctx), S * ctx.u(0, 5))
    if ctx.chance(0.25):
        c = tuple(float(ctx.i(-20, 20)) for _ in range(3))
    depth = ctx.i(0, 4)
    tree = csg.any_tree(ctx, c, S, depth)
    kind = "depth %d" % depth
    if ctx.chance(0.15):
        tree = csg.chain(ctx, c, S, ctx.i(5, 15))
        kind = "a long chain"
    if ctx.chance(0.15):                    # the same primitive (one and the same object) in several places
        lv = E.leaves(tree)
        one = ctx.pick(lv)

        def again(t):
            if isinstance(t, tuple):
                return (t[0], again(t[1]), again(t[2]))
            return one if ctx.chance(0.4) else t
        tree = again(tree)
        kind = "shared primitives"
    idx = ctx.u(0.5, 3)
    comp = sut.Compound(E.build_tree(tree, sut, share=ctx.chance(0.5)), surface_behavior="refract", index=idx)
    lv = E.leaves(tree)
    ctx.desc = {"solid": E.tree_desc(tree), "index": idx}
    asked = []
    for _ in range(12):
        lf = ctx.pick(lv)
        q = ctx.u()
        if q < 0.4:
            X = madd(c, S * ctx.u(0, 2.2), scenes.rand_unit(ctx))
        elif q < 0.8:                       # near one primitive's surface, on either side
            k = lf.R * (1 + ctx.pick([-1, 1]) * 10.0 ** ctx.u(-8, -0.5))
            if hasattr(lf, "a"):            # anywhere along a cylinder, also far along it
                rad = v3.rodrigues(v3.any_perp(lf.a), lf.a, ctx.u(0, 6.3))
                X = madd(madd(lf.c, k, rad), S * ctx.pick([ctx.u(-2, 2), ctx.pick([-1, 1]) * 10.0 ** ctx.u(0, 5)]), lf.a)
                ctx.ev("points next to a cylinder's wall")
            else:
                X = madd(lf.c, k, scenes.rand_unit(ctx))
        else:
            X = lf.c
        if any(abs(l.sd(X)) < 1e-12 * (1 + norm(c) + S) * 10 + 3e-13 * norm(X) for l in lv):
            ctx.skip("point on a surface")
            continue
        want = E.member(tree, {id(l): l.sd(X) < 0 for l in lv})
        x = E.arr(X, "float")
        got = comp.get_index_at_point_if_inside(x)
        ctx.check((got == idx) if want else (got is None), "membership of a point in a CSG solid is wrong", point=X,
                  inside=want, index_reported=got)
        world = sut.get_index_at_point([comp], x)
        ctx.check(world == (idx if want else 1.0), "the index of refraction at a point is wrong", point=X, got=world, inside=want)
        asked.append((x, want))
        y, again = ctx.pick(asked)
        ctx.check((comp.get_index_at_point_if_inside(y) == idx) == again, "asked again, the solid gives another answer", point=y, inside=again)
        ctx.ev("points %s solids of %s" % ("inside" if want else "outside", kind))
    ctx.seen(depth, len(lv))


def regrown(ctx):
    """the same tree object, asked again after its nodes were changed"""
    S = ctx.logu(1, 100)
    c = mul(scenes.rand_unit(ctx), S * ctx.u(0, 3))
    op = ctx.pick(["union", "intersect", "difference"])
    A = E.SphereLeaf(c, S)
    B = E.SphereLeaf(madd(c, S * ctx.u(0.5, 1.5), scenes.rand_unit(ctx)), S * ctx.u(0.5, 1.2))
    tree = E.build_tree((op, A, B), sut)
    comp = sut.Compound(tree, surface_behavior="refract", index=1.5)
    pts = [madd(c, S * ctx.u(0, 2.2), scenes.rand_unit(ctx)) for _ in range(6)]
    ctx.desc = {"solid": E.tree_desc((op, A, B))}
    for step in range(4):
        for X in pts:
            if any(abs(l.sd(X)) < 1e-9 * (1 + norm(c) + S) for l in (A, B)):
                continue
            want = E.member((op, A, B), {id(A): A.sd(X) < 0, id(B): B.sd(X) < 0})
            got = comp.get_index_at_point_if_inside(E.arr(X, "float"))
            ctx.check((got is not None) == want, "after its tree was changed a solid still answers for the old one", point=X, inside=want,
                      step=step, solid=E.tree_desc((op, A, B)))
            ctx.ev("points asked of changed trees")
        if ctx.chance(0.5):
            op = ctx.pick(["union", "intersect", "difference"])
            tree.setRootVal(op)
        else:
            B = E.SphereLeaf(madd(c, S * ctx.u(0.3, 1.5), scenes.rand_unit(ctx)), S * ctx.u(0.5, 1.2))
            if ctx.chance(0.5):
                tree.getRightChild().setRootVal(B.build(sut))
            else:
                tree = E.build_tree((op, A, B), sut)
                comp = sut.Compound(tree, surface_behavior="refract", index=1.5)
        if ctx.chance(0.5):
            pts = pts[::-1]


def world(ctx):
    """several solids: the first listed solid containing the point gives the index; 1 elsewhere"""
    S = ctx.logu(1, 100)
    comps = []
    for _ in range(ctx.i(0, 4)):
        c = mul(scenes.rand_unit(ctx), S * ctx.u(0, 1.5))
        tree = csg.any_tree(ctx, c, S, ctx.i(0, 2))
        comps.append((tree, ctx.u(1.01, 3) if ctx.chance(0.7) else ctx.pick([0, 0.0, 0.5, 1, 1.0, 2, 1.0000001])))
    objs = [sut.Compound(E.build_tree(t, sut), "refract", i) for t, i in comps]
    others = [E.Inert(ctx.pick(["Annotation", "Filter", "Window"]), (0.0, 0.0, 0.0), (0.0, 0.0, 1.0)).build(sut)]
    others.append(E.RoundMirror((0.0, 0.0, 0.0), (0.0, 1.0, 0.0), S).build(sut))
    lst = list(objs)
    for o in others:
        lst.insert(ctx.i(0, len(lst)), o)
    ctx.desc = {"solids": [E.tree_desc(t) for t, _ in comps], "indices": [i for _, i in comps]}
    for _ in range(12):
        X = mul(scenes.rand_unit(ctx), S * ctx.u(0, 3))
        if any(abs(l.sd(X)) < 1e-10 * S for t, _ in comps for l in E.leaves(t)):
            continue
        want = 1.0
        for t, i in comps:
            if E.member(t, {id(l): l.sd(X) < 0 for l in E.leaves(t)}):
                want = i
                break
        got = sut.get_index_at_point(lst, E.arr(X, "float"))
        ctx.check(got == want, "the index at a point must be that of the first listed solid containing it, else the world's",
                  point=X, got=got, expected=want)
        ctx.ev("points in worlds of %d solids" % len(comps))


PROP = Prop(
    "C13",
    "random CSG trees of depth 0-4 (chains to 15 deep, also with one primitive in several places) over spheres and cylinders with union, intersect and difference anywhere, and worlds of several "
    "overlapping solids; oracle: boolean combination of signed distances, points down to 1e-8 relative from a primitive's surface",
    [Family("trees", trees, 9000), Family("worlds", world, 5000), Family("regrown", regrown, 3000)],
    required=["points next to a cylinder's wall", "points asked of changed trees", "points inside solids of depth 3", "points outside solids of depth 3", "points inside solids of a long chain", "points outside solids of a long chain",
              "points inside solids of shared primitives", "points outside solids of shared primitives", "points inside solids of depth 0",
              "points in worlds of 3 solids", "points in worlds of 0 solids"],
    assumptions=["points closer to a surface than rounding resolves are not judged"])
