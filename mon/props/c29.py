"""C29 probe rays ("faerie fire") light up the outer surface of a scene."""
import math

import numpy as np

from ..core import Prop, Family, Skip
from ..common import *
from .. import sut, scenes, elements as E, v3
from ..trace import Shot, run_monitored
from ..v3 import *


def tup3(a):
    a = np.asarray(a, dtype=float)
    if a.shape != (3,) or not np.all(np.isfinite(a)):
        from ..core import Violation
        raise Violation("not a finite 3-vector: %r" % (a,))
    return tuple(float(x) for x in a)


def check_shell(ctx, rays, c, R):
    for r in rays:
        p, d = tup3(r.position), tup3(r.direction)
        off = sub(p, c)
        tol = 1e-12 * (1 + norm(c) + R)
        ctx.check(abs(norm(off) - R) < tol, "a probe ray does not start on the sphere", start=p, centre=c, R=R, distance=norm(off))
        ctx.check(abs(norm(d) - 1) < 1e-12, "a probe ray's direction is not a unit vector", norm=norm(d))
        ctx.check(norm(cross(off, d)) < 1e-9 * (1 + norm(c) + R) and dot(off, d) < 0, "a probe ray is not aimed at the centre", start=p, direction=d, centre=c)
        ctx.check(r.type == "faerie_fire" and r.wavelength == 532 and not r.blocked and r.order == 0 and not r.print_trajectory, "not a quiet green probe ray of order 0",
                  type=r.type, wavelength=r.wavelength, blocked=r.blocked)
        V = np.asarray(r.get_plot_repr(), dtype=float)
        ctx.check(V.shape == (1, 3) and tuple(V[0]) == p, "a new probe ray already has a path", path=V)
    ctx.ev("probe rays checked", len(rays))


def shell(ctx):
    st = ctx.pick(["int", "float"])
    c = tuple(float(ctx.i(-50, 50)) for _ in range(3)) if st == "int" else mul(scenes.rand_unit(ctx), ctx.logu(0.1, 1000))
    R = float(ctx.i(1, 300)) if ctx.chance(0.4) else ctx.logu(0.1, 1000) if ctx.chance(0.7) else ctx.logu(1e-5, 1)
    if R == int(R) and ctx.chance(0.5):
        R = int(R)
    N = ctx.pick([0, 1, 2, 5, 20, 100])
    lst = [sut.Ray(np.array([1, 2, 3]), np.array([0, 0, 1]), wavelength=600) for _ in range(ctx.i(0, 3))]
    old = list(lst)
    C = E.arr(c, st)
    C0 = C.copy()
    ctx.desc = {"centre": c, "R": R, "N": N, "already there": len(old)}
    got = sut.add_faerie_fire_rays(lst, R, C, N) if ctx.chance(0.5) else sut.add_faerie_fire_rays(lst, R, C, N=N)
    ctx.check(got is lst and len(lst) == len(old) + N and all(a is b for a, b in zip(old, lst)), "the probe rays were not appended to the list that was given",
              length=len(got), before=len(old), N=N)
    ctx.check(np.array_equal(C, C0) and C.dtype == C0.dtype, "the centre was changed")
    new = lst[len(old):]
    check_shell(ctx, new, c, R)
    ctx.check(len({tup3(r.position) for r in new}) == N and len({id(r) for r in new}) == N, "some probe rays are the same ray", N=N)
    ctx.check(all(r.wavelength == 600 for r in old), "rays already in the list were changed")
    # flown through nothing they meet in the middle, and go on to the other side
    for r in new[:3]:
        p = tup3(r.position)
        r.run(2 * R, optic_list=[])
        ctx.check(dist(tup3(r.position), add(c, neg(sub(p, c)))) < 1e-9 * (1 + norm(c) + R) and not r.blocked, "a probe ray in empty space does not cross to the other side")
    ctx.ev("shells checked")
    ctx.seen(N, quant((R,)), quant(c))


def uniform(ctx):
    """all directions alike: mean 0, second moments 1/3, fourth moments 1/5, over the default number of rays"""
    c, R = mul(scenes.rand_unit(ctx), ctx.u(0, 10)), ctx.logu(1, 10)
    default = ctx.chance(0.3)
    N = 1000 if default else ctx.i(1500, 3000) if ctx.chance(0.6) else ctx.i(30000, 40000)
    ctx.desc = {"N": N, "R": R}
    rays = sut.add_faerie_fire_rays([], R, np.array(c)) if default else sut.add_faerie_fire_rays([], R, np.array(c), N)
    ctx.check(len(rays) == N, "not the number of rays asked for", got=len(rays), N=N)
    u = (np.array([tup3(r.position) for r in rays]) - np.array(c)) / R
    s = 7 / math.sqrt(N)
    m = u.mean(axis=0)
    ctx.check(np.max(np.abs(m)) < s * math.sqrt(1 / 3), "the probe rays do not come from all sides alike (mean)", mean=m)
    M = u.T @ u / N
    ctx.check(np.max(np.abs(np.diag(M) - 1 / 3)) < s * math.sqrt(4 / 45) and np.max(np.abs(M - np.diag(np.diag(M)))) < s * math.sqrt(1 / 15),
              "the probe rays do not come from all sides alike (second moments)", moments=M)
    f = (u ** 4).mean(axis=0)
    ctx.check(np.max(np.abs(f - 1 / 5)) < s * math.sqrt(1 / 9 - 1 / 25), "the probe rays do not come from all sides alike (fourth moments)", moments=f)
    for sx in (-1, 1):
        for sy in (-1, 1):
            for sz in (-1, 1):
                k = float(np.mean((u[:, 0] * sx > 0) & (u[:, 1] * sy > 0) & (u[:, 2] * sz > 0)))
                ctx.check(abs(k - 0.125) < s * math.sqrt(0.125 * 0.875), "an octant gets too few or too many probe rays", fraction=k, octant=(sx, sy, sz))
    ctx.ev("distributions checked")
    ctx.seen(N, R)


def surfaces(ctx):
    """fired at a scene they stop, unturned, on the first surface, and leave no trace in detectors"""
    sc, shot = scenes.make_scene(ctx, scenes.ALL + ["detector"], orders=(0,), n_hits=ctx.i(1, 4), decoys=ctx.i(0, 5))
    optics = sc.build(sut)
    e = ctx.pick(sc.els)
    b = e.bound() or (shot.P, sc.S)
    c = add(b[0], mul(scenes.rand_unit(ctx), b[1] * ctx.u(0, 0.7)))
    R = sc.S * ctx.logu(0.5, 8)
    L = max(sc.L, norm(c) + R)
    rays = sut.add_faerie_fire_rays([], R, np.array(c), N=6)
    check_shell(ctx, rays, c, R)
    dets = [(o, len(o.hit_data)) for el, o in zip(sc.els, optics) if el.kind == "detector"]
    ctx.desc = {"scene": [x.desc() for x in sc.els], "centre": c, "R": R}
    for r in rays:
        s = Shot(tup3(r.position), tup3(r.direction), 532, 0, type="faerie_fire")
        res, _ = run_monitored(ctx, sc.els, optics, s, L, 3 * L if ctx.chance(0.8) else R * ctx.u(0, 1.5), max_int=30, aspects=("faerie", "path", "detector"), ray=r)
        ctx.seen(tuple(res.kinds), quant(s.P))
        if res.kinds[:1] == ["end"]:
            ctx.ev("probe rays that met nothing")
    for o, n in dets:
        ctx.check(len(o.hit_data) == n, "a probe ray was registered by a detector", records=len(o.hit_data))


def outline(ctx):
    """the stopping points on a lone solid lie on its skin, seen from outside"""
    R = ctx.logu(0.5, 50)
    c = mul(scenes.rand_unit(ctx), R * ctx.u(0, 20))
    ball = E.BallLens(c, 2 * R, ctx.u(1.1, 2)) if ctx.chance(0.5) else E.BallMirror(c, 2 * R)
    o = ball.build(sut) if ctx.chance(0.6) else sut.Compound(sut.BinaryTree(sut.Sphere(np.array(c), R=R)), surface_behavior=ctx.pick(["reflect", "refract"]))
    off = mul(scenes.rand_unit(ctx), R * ctx.u(0, 0.9))
    F = R * ctx.logu(2.5, 30)
    rays = sut.add_faerie_fire_rays([], F, np.array(add(c, off)), N=12)
    ctx.desc = {"ball": ball.desc(), "aimed": off, "from": F}
    for r in rays:
        p, d = tup3(r.position), tup3(r.direction)
        r.run(3 * F, optic_list=[o])
        q = tup3(r.position)
        ctx.check(r.blocked and abs(dist(q, c) - R) < 1e-8 * (1 + norm(c) + F), "a probe ray did not stop on the ball", at=q, blocked=r.blocked, distance=dist(q, c), R=R)
        ctx.check(dot(sub(q, c), d) < 1e-6 * R, "a probe ray stopped on the far side of the ball", at=q)
        ctx.check(dist(tup3(r.direction), d) < 1e-12, "a probe ray was turned")
        r.run(F, optic_list=[o])
        ctx.check(tup3(r.position) == q and len(r.get_plot_repr()) == 2, "a stopped probe ray went on when run again")
    ctx.ev("points on a lone ball", len(rays))
    ctx.seen(quant((R, F)))


PROP = Prop(
    "C29",
    "shells of 0..40000 probe rays around random and whole-number centres (radius, aim, number, identity, isotropy), fired through nothing, at lone balls, and at "
    "random scenes of every kind of optic; where they stop against the geometric oracle",
    [Family("shell", shell, 2000), Family("uniform", uniform, 60, 600), Family("surfaces", surfaces, 1200), Family("outline", outline, 1000)],
    required=["probe rays checked", "shells checked", "distributions checked", "probe rays stopped", "probe rays that met nothing", "points on a lone ball"],
    assumptions=RAY_ASSUMPTIONS + ["isotropy is judged at seven standard deviations of its moments"])
