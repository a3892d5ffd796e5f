"""C33 rays traced at the same time in several threads go the way they go alone."""
import threading

import numpy as np

from ..core import Prop, Family, Skip
from ..common import *
from .. import sut, scenes, elements as E, v3, inject, csg
from ..v3 import *
from .c17 import snap, same, result, equal, hits


def judge(ctx, errors):
    for e in errors:
        if e is not None:
            ctx.fail("tracing in a thread raised %s: %s, which it does not alone" % (type(e).__name__, e))


def trace(ctx):
    """several rays in one scene, one thread each"""
    orders = (0, 1, -1)
    sc, shot = scenes.make_scene(ctx, scenes.ALL, orders=orders, end=ctx.pick([None, "detector", "detector"]), n_hits=ctx.i(1, 4), decoys=ctx.i(0, 2))
    shots = [shot] + scenes.extra_shots(ctx, sc, shot, ctx.i(1, 3))
    for s in shots[1:]:
        s.order = ctx.pick(orders)
    if ctx.chance(0.4):
        shots.append(ctx.pick(shots))                 # the same ray twice
    md = scenes.budget(ctx, sc.L)
    mean = ctx.logu(4, 2000)
    ctx.desc = {"scene": [e.desc() for e in sc.els], "rays": [s.desc() for s in shots], "mean quantum": mean}
    alone, rows = [], []
    for s in shots:
        own = sc.build(sut)
        r = s.build()
        r.run(md, optic_list=own, max_interactions=30)
        alone.append(result(r))
        rows.append([hits(o) for o in own])
    optics = sc.build(sut)
    snaps = [snap(o) for o in optics]
    shared_list = ctx.chance(0.7)

    def job(s):
        def go():
            r = s.build()
            r.run(md, optic_list=optics if shared_list else list(optics), max_interactions=30)
            return r
        return go
    sch = inject.Scheduler(ctx.rng, mean)
    res, err = sch.run([job(s) for s in shots])
    judge(ctx, err)
    for s, r, a in zip(shots, res, alone):
        ctx.check(equal(result(r), a), "a ray traced while others are traced in other threads goes another way than alone", ray=s.desc(), alone=a[0],
                  at_the_same_time=r.get_plot_repr(), switches=len(sch.switches), last=sch.switches[-5:])
    for k, o in enumerate(optics):
        ctx.check(same(snap(o), snaps[k]), "tracing in threads changed an optic", optic=type(o).__name__)
        if hasattr(o, "hit_data"):
            want = sorted(h for rr in rows for h in rr[k])
            ctx.check(sorted(hits(o)) == want, "a detector hit from several threads does not hold every hit exactly once", got=hits(o), expected=want)
            ctx.ev("records written by several threads", max(0, sum(1 for rr in rows if rr[k]) - 1))
    ctx.ev("rays traced at the same time", len(shots))
    ctx.note("handovers", len(sch.switches))
    ctx.seen(len(shots), hash(tuple(sch.switches)))


def making(ctx):
    """scenes made, asked and traced in several threads, each thread its own"""
    jobs, want = [], []
    descs = []
    for _ in range(ctx.i(2, 4)):
        sc, shot = scenes.make_scene(ctx, scenes.ALL, n_hits=ctx.i(1, 3), decoys=ctx.i(0, 1), orders=(0, 1), end=ctx.pick([None, "detector"]))
        pts = [madd(shot.P, sc.S * ctx.u(0, 8), scenes.rand_unit(ctx)) for _ in range(5)]
        a, b = scenes.rand_unit(ctx), scenes.rand_unit(ctx)
        th = ctx.u(-7, 7)
        wl = ctx.u(300, 800)

        def go(sc=sc, shot=shot, pts=pts, a=a, b=b, th=th, wl=wl):
            out = []
            optics = sc.build(sut)
            r = shot.build()
            r.run(3 * sc.L, optic_list=optics, max_interactions=20)
            out += list(result(r)) + [hits(o) for o in optics]
            for p in pts:
                out.append(sut.get_index_at_point([o for o in optics if isinstance(o, sut.Compound)], np.array(p)))
            out.append(np.array(sut.go.rotation_matrix_axis_angle(np.array(a), th)))
            out.append(np.array(sut.go.rotation_matrix4(np.array(a), np.array(b))))
            out.append(np.array(sut.go.project_onto_plane(np.array(a), np.array(b))))
            out.append(sut.go.angle_between(np.array(a), np.array(b)))
            out.append(tuple(sut.ge.wavelength_to_rgb(wl)))
            out.append(sut.ge.to_precision(th, 5))
            out.append([repr(o) for o in optics] + [repr(r)])
            t = sut.BinaryTree("u")
            t.insertLeft("l")
            t.insertRight("r")
            t.insertLeft("m")
            out.append((t.getLeftChild().getRootVal(), t.getLeftChild().getLeftChild().getRootVal(), t.getRightChild().getRootVal()))
            return out
        jobs.append(go)
        want.append(go())
        descs.append(shot.desc())
    mean = ctx.logu(4, 2000)
    ctx.desc = {"rays": descs, "mean quantum": mean}
    sch = inject.Scheduler(ctx.rng, mean)
    res, err = sch.run(jobs)
    judge(ctx, err)
    for g, w in zip(res, want):
        for k, (x, y) in enumerate(zip(g, w)):
            ok = np.array_equal(x, y) if isinstance(x, np.ndarray) else x == y
            ctx.check(ok, "what is made and asked in one thread is disturbed by another (answer %d)" % k, alone=y, at_the_same_time=x)
    ctx.ev("scenes made at the same time", len(jobs))
    ctx.note("handovers", len(sch.switches))
    ctx.seen(len(jobs), hash(tuple(sch.switches)))


def asking(ctx):
    """several threads ask the same solid and the same shapes"""
    S = ctx.logu(0.5, 50)
    c = mul(scenes.rand_unit(ctx), S * ctx.u(0, 3))
    el = E.CompoundEl(csg.any_tree(ctx, c, S, ctx.i(0, 2)), "refract", 1.5)
    n = scenes.rand_unit(ctx)
    tn = scenes.tangent_for(ctx, n)
    shapes = [lf.build(sut) for lf in (E.CylLeaf(c, scenes.raw(ctx, scenes.rand_unit(ctx)), S), E.SphereLeaf(c, S))]
    o = el.build(sut)
    rect = sut.Rectangle(np.array(c), np.array(n), np.array(tn), h=S, w=S)
    jobs = []
    for _ in range(ctx.i(2, 3)):
        qs = []
        for _ in range(ctx.i(1, 4)):
            p = madd(c, S * ctx.u(0, 2), scenes.rand_unit(ctx))
            d = unit(sub(madd(c, S * ctx.u(0, 0.8), scenes.rand_unit(ctx)), p))
            qs.append((p, d, ctx.i(0, 5), ctx.i(0, 1)))

        def go(qs=qs):
            out = []
            for p, d, k, j in qs:
                P = np.array(p)
                if k == 0:
                    out.append(o.get_index_at_point_if_inside(P))
                elif k == 1:
                    out.append(sut.get_index_at_point([o], P))
                elif k == 2:
                    out.append(bool(shapes[j].test_point(P)))
                elif k == 3:
                    out += [None if x is None else np.array(x) for x in shapes[j].test_intersect(sut.Ray(P, np.array(d)))]
                elif k == 4:
                    out += [None if x is None else np.array(x) for x in rect.test_intersect(sut.Ray(P, np.array(d)))]
                else:
                    out += [None if x is None else np.array(x) for x in o.test_intersect(sut.Ray(P, np.array(d)))]
            return out
        jobs.append(go)
    want = [j() for j in jobs]
    mean = ctx.logu(4, 300)
    ctx.desc = {"solid": el.desc(), "mean quantum": mean}
    sch = inject.Scheduler(ctx.rng, mean)
    res, err = sch.run(jobs)
    judge(ctx, err)
    for g, w in zip(res, want):
        for x, y in zip(g, w):
            ok = np.array_equal(x, y) if isinstance(x, np.ndarray) else x == y
            ctx.check(ok, "a solid asked from several threads at once answers otherwise than alone", alone=y, at_the_same_time=x)
    ctx.ev("questions asked at the same time", sum(map(len, want)))
    ctx.note("handovers", len(sch.switches))
    ctx.seen(len(jobs), hash(tuple(sch.switches)))


def free(ctx):
    """real threads, not steered, with the shortest switching interval there is"""
    import sys
    sc, shot = scenes.make_scene(ctx, scenes.ALL, orders=(0, 1), end="detector", n_hits=ctx.i(1, 4), decoys=ctx.i(0, 2))
    shots = [shot] + scenes.extra_shots(ctx, sc, shot, 5)
    md = scenes.budget(ctx, sc.L)
    ctx.desc = {"scene": [e.desc() for e in sc.els], "rays": [s.desc() for s in shots]}
    alone, n = [], 0
    ref = sc.build(sut)
    for s in shots:
        r = s.build()
        r.run(md, optic_list=ref, max_interactions=30)
        alone.append(result(r))
    optics = sc.build(sut)
    reps = 3
    out = [None] * len(shots)
    go = threading.Barrier(len(shots))

    def body(k):
        try:
            go.wait(20)
            got = []
            for _ in range(reps):
                r = shots[k].build()
                r.run(md, optic_list=optics, max_interactions=30)
                got.append(result(r))
            out[k] = got
        except BaseException as e:
            out[k] = e
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=body, args=(k,), daemon=True) for k in range(len(shots))]
        [t.start() for t in ts]
        [t.join(60) for t in ts]
    finally:
        sys.setswitchinterval(old)
    judge(ctx, [o for o in out if isinstance(o, BaseException)])
    for k, got in enumerate(out):
        for g in got:
            ctx.check(equal(g, alone[k]), "a ray traced in a thread of its own goes another way than alone", ray=shots[k].desc(), alone=alone[k][0], got=g[0])
    for o, a in zip(optics, ref):
        if hasattr(o, "hit_data"):
            ctx.check(sorted(hits(o)) == sorted(hits(a) * reps), "a detector hit from several threads does not hold every hit exactly once",
                      got=len(hits(o)), expected=len(hits(a)) * reps)
            n += len(hits(o))
    ctx.ev("rays in free-running threads", len(shots) * reps)
    ctx.ev("records written by free-running threads", n)
    ctx.seen(quant(shot.d))


PROP = Prop(
    "C33",
    "2-6 rays in one scene of any optics, one thread each: a deterministic scheduler hands over at randomly chosen bytecodes of the "
    "library (every 4 to 2000, seeded), so each execution is one reproducible interleaving; scenes built, asked, printed and traced in "
    "2-4 threads at once; free-running threads with the shortest switching interval; all compared bit by bit with the same work done "
    "alone; distinct executions are distinct interleavings",
    [Family("trace", trace, 2500, 30000), Family("making", making, 1000, 12000), Family("free", free, 400, 5000),
     Family("asking", asking, 2500, 25000)],
    required=["rays traced at the same time", "questions asked at the same time", "records written by several threads", "scenes made at the same time", "rays in free-running threads",
              "records written by free-running threads"],
    assumptions=["each ray belongs to one thread; handing over is possible at every bytecode of the library, which includes every "
                 "point at which CPython can switch threads inside it"])
