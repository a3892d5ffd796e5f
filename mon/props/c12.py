"""C12 rays meet a CSG solid exactly where they first cross its boundary."""
import math

from ..core import Prop, Family, Skip
from ..common import *
from .. import sut, scenes, elements as E, v3, csg
from ..v3 import *

A = ("compound", "nearest", "path")


def solids(ctx):
    S = ctx.logu(1, 100)
    c = mul(scenes.rand_unit(ctx), S * ctx.u(0, 5))
    if ctx.chance(0.2):
        c = tuple(float(ctx.i(-20, 20)) for _ in range(3))
    k, tree, outside_only = csg.scope_tree(ctx, c, S)
    behavior = ctx.pick(["reflect", "refract"])
    el = E.CompoundEl(tree, behavior, ctx.u(1.05, 2.0))
    el.share = ctx.chance(0.5)
    optics = [el.build(sut)]
    L = norm(c) + 8 * S
    lv = E.leaves(tree)
    for _ in range(8):
        T = madd(ctx.pick([x for x in [lf.c for lf in lv]]), S * ctx.u(0, 1.0), scenes.rand_unit(ctx))
        d = scenes.rand_unit(ctx)
        if ctx.chance(0.15):
            d = ctx.pick(scenes.AXES)
        P = madd(T, -S * ctx.u(0, 6), d)
        if not csg.sd_ok(tree, P, 1e-4 * S):
            continue
        if outside_only and any(lf.sd(P) < 0 for lf in lv):
            continue
        shot = Shot(P, scenes.raw(ctx, d))
        ctx.desc = {"scene": [el.desc()], "ray": shot.desc()}
        n = 1 if outside_only or ctx.chance(0.3) else ctx.i(2, 8)
        res, ray = run_monitored(ctx, [el], optics, shot, L, 25 * S, max_int=n, aspects=A)
        ctx.seen(k, tuple(res.kinds))
        first = res.hits[0][1] if res.hits else None
        if first is not None and k != "unions" and dist(first, P) > 1e-4 * S:
            inside = E.member(tree, {id(x): x.sd(P) < 0 for x in lv})
            ans = optics[0].test_intersect(sut.Ray(E.arr(P, "float"), E.arr(d, "float")))
            ctx.check(bool(ans[0]) and dist(v3.tup(ans[1]), first) < 1e-8 * (1 + L), "asked directly, the solid names another point than the "
                      "one where the ray stops", got=ans[1], stops=first)
            ctx.check(bool(ans[3]) == (not inside), "a ray that starts %s the solid is said to start %s it" % (
                ("inside", "outside") if inside else ("outside", "inside")), got=ans[3], P=P)
            ctx.ev("%s solids: known to start %s" % (k, "inside" if inside else "outside"))
        if res.kinds:
            ctx.counters["~first encounters: %s %s" % (k, res.kinds[0])] += 1
            ctx.ev("%s solids: first encounters decided" % k)


def slivers(ctx):
    """solids with parts, gaps and walls that are a hair thin: first crossings by comparing the primitives' own crossings"""
    S = ctx.logu(0.1, 50)
    c = mul(scenes.rand_unit(ctx), S * ctx.u(0, 2))
    n = scenes.rand_unit(ctx)
    dl = S * 10.0 ** ctx.u(-6, -1.5)
    kind = ctx.pick(["lens", "gap", "wall", "shaving"])
    Ra, Rb = S * ctx.u(0.4, 2), S * ctx.u(0.4, 2)

    def part(centre, R):
        if ctx.chance(0.3):
            return E.CylLeaf(centre, scenes.raw(ctx, scenes.tangent_for(ctx, n)), R)
        return E.SphereLeaf(centre, R)
    if kind in ("lens", "gap"):
        s = -0.5 * dl if kind == "lens" else 0.5 * dl
        a, b = part(madd(c, -(Ra + s), n), Ra), part(madd(c, Rb + s, n), Rb)
        op = "intersect" if kind == "lens" else "union"
    else:
        Ra, Rb = max(Ra, Rb), min(Ra, Rb) if kind == "wall" else max(Ra, Rb)
        a, b = part(madd(c, -(Ra - 0.5 * dl), n), Ra), part(madd(c, -(Rb + 0.5 * dl), n), Rb)
        op = "difference"
    tree = (op, a, b) if op == "difference" or ctx.chance(0.5) else (op, b, a)
    o = E.CompoundEl(tree, ctx.pick(["reflect", "refract"]), 1.5).build(sut)
    L = norm(c) + 8 * S
    rho = math.sqrt(dl * min(Ra, Rb)) * ctx.u(0, 0.8)
    T = madd(c, rho, v3.rodrigues(v3.any_perp(n), n, ctx.u(0, 6.3)))
    d = scenes.around(ctx, mul(n, ctx.pick([1.0, -1.0])), ctx.pick([0.3, 1.0]))
    P0 = madd(T, -S * ctx.u(0.5, 5), d)
    ctx.desc = {"solid": E.tree_desc(tree), "thickness": dl, "P": P0, "d": d, "kind": kind}
    ev = []
    for lf in (a, b):
        st, t0, t1 = lf.ts(P0, d)
        if st == "amb":
            raise Skip("close to touching")
        if st == "two":
            ev += [(t0, lf), (t1, lf)]
    ev.sort(key=lambda e: e[0])
    m = 1e-7 * (1 + L)
    if any(y[0] - x[0] < m for x, y in zip(ev, ev[1:])) or any(abs(x[0]) < m for x in ev):
        raise Skip("crossings too close to tell apart")
    starts = [0.0] + [0.5 * (x[0] + y[0]) for x, y in zip(ev, ev[1:]) if x[0] > 0]
    for t in starts:
        P = madd(P0, t, d)
        inside = lambda u: E.member(tree, {id(lf): lf.sd(madd(P0, u, d)) < 0 for lf in (a, b)})
        now, want = inside(t), None
        ahead = [e for e in ev if e[0] > t]
        for k, (u, lf) in enumerate(ahead):
            nxt = ahead[k + 1][0] if k + 1 < len(ahead) else u + S
            if inside(0.5 * (u + nxt)) != now:
                want = (u, lf)
                break
        r = o.test_intersect(sut.Ray(E.arr(P, "float"), E.arr(scenes.raw(ctx, d), "float")))
        ctx.check(bool(r[0]) == (want is not None), "a ray %s" % ("passes through a surface of a solid" if want else "meets a surface that a solid does not have"),
                  start=t, crossings=[e[0] for e in ev], expected=want and want[0], got=r[1])
        if want:
            q = madd(P0, want[0], d)
            err = 1e-11 * (1 + L) / max(1e-3, abs(dot(d, want[1].out_normal(q))))
            ctx.check(dist(v3.tup(r[1]), q) < err, "a ray stops elsewhere than where it first crosses the surface of a solid", got=r[1], expected=q, start=t,
                      crossings=[e[0] for e in ev])
            ctx.check(norm(cross(v3.tup(r[2]), want[1].out_normal(q))) < 1e-6, "the normal is that of another surface", got=r[2], at=q)
            ctx.ev("slivers: surfaces met")
        else:
            ctx.ev("slivers: passed")
    ctx.ev("slivers: " + kind)
    ctx.seen(kind, len(ev), quant((dl,)))


PROP = Prop(
    "C12",
    "random CSG solids (spheres, cylinders, nested intersections, unions and differences of convex parts, chains of unions of up to ten, intersections of up to twelve, parts with common surfaces) met "
    "from outside and inside, reflecting and refracting, followed for up to 8 encounters; oracle: membership of the intervals "
    "between all primitive crossings along the line; non-trivial if at least one encounter was decided",
    [Family("solids", solids, 12000), Family("slivers", slivers, 6000),
     Family("scenes", scene_case(["compound", "compound_mirror", "mirror", "balllens"], A), 5000)],
    required=["slivers: " + k for k in ("lens", "gap", "wall", "shaving", "surfaces met", "passed")] + ["%s solids: first encounters decided" % k for k in ("leaf", "intersect", "union", "difference", "nested", "unions", "deep", "shared")],
    assumptions=RAY_ASSUMPTIONS + ["operands of intersections and differences are convex; chains of unions are entered from "
                                   "outside (see known_findings.json for the rest)"],
    probes=csg.probes)
