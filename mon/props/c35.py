"""C35 nothing accumulates: memory and work per ray, and per step, stay what they are."""
import gc
import tracemalloc

import numpy as np

from ..core import Prop, Family, Skip
from ..common import *
from .. import sut, scenes, elements as E, v3, inject
from ..v3 import *
from ..trace import Shot


def alive():
    gc.collect()
    return sum(1 for o in gc.get_objects() if type(o) is sut.Ray)


def jitter(ctx, s, S):
    return Shot(add(s.P, mul(scenes.rand_unit(ctx), S * 1e-3 * ctx.u(0, 1))), unit(add(s.d, mul(scenes.rand_unit(ctx), 0.02 * ctx.u(0, 1)))),
                s.wavelength + ctx.u(0, 1), s.order, "float", s.type)


def memory(ctx):
    """rays traced and thrown away leave nothing behind but the detectors' rows"""
    orders = (0, 1)
    sc, shot = scenes.make_scene(ctx, scenes.ALL, orders=orders, end=ctx.pick([None, "detector"]), n_hits=ctx.i(1, 4), decoys=ctx.i(0, 2))
    optics = sc.build(sut)
    md = scenes.budget(ctx, sc.L)
    talk = ctx.chance(0.3)
    ctx.desc = {"scene": [e.desc() for e in sc.els], "ray": shot.desc()}
    met = [0]

    def batch(n):
        for _ in range(n):
            s = jitter(ctx, shot, sc.S)
            r = sut.Ray(np.array(s.P), np.array(s.d), wavelength=s.wavelength, order=s.order, print_trajectory=talk)
            r.run(md, optic_list=optics, max_interactions=12)
            met[0] += len(r.get_plot_repr()) - 2
            if ctx.chance(0.1):
                repr(r), str(optics[0])

    def rows():
        return sum(len(getattr(o, "hit_data", ())) for o in optics)
    out = ctx_silence()
    with out:
        batch(160)
    rays0 = alive()
    tracemalloc.start()
    try:
        with out:
            batch(30)
        gc.collect()
        m0, r0 = tracemalloc.get_traced_memory()[0], rows()
        n = 300
        with out:
            batch(n)
        gc.collect()
        m1, r1 = tracemalloc.get_traced_memory()[0], rows()
    finally:
        tracemalloc.stop()
    ctx.check(alive() <= rays0, "rays that were traced and thrown away are kept somewhere", alive=alive(), before=rays0)
    grown = m1 - m0 - 400 * (r1 - r0)
    ctx.check(grown < 24 * n + 4096, "tracing keeps about %d bytes for every ray, detectors' rows aside" % (grown // n), bytes=grown, rays=n,
              rows=r1 - r0)
    ctx.ev("rays traced and forgotten", n)
    ctx.ev("surfaces met by them", met[0])
    ctx.note("bytes that stayed", max(0, grown))
    ctx.seen(quant(shot.d), met[0])


def ctx_silence():
    import contextlib
    import io

    class Silence(io.StringIO):
        def write(self, s):
            return len(s)
    return contextlib.redirect_stdout(Silence())


def steps(ctx):
    """the work of one step does not depend on how many came before it"""
    sh = Shuttle(ctx)
    early, late = [], []
    ray, optics = sh.ray, sh.optics
    far = 1e9
    n = ctx.i(150, 400)
    ctx.desc = {"steps": n}
    for k in range(n):
        if k < 20 or k >= n - 20:
            with inject.counting() as c:
                ray.run(far, optic_list=optics, max_interactions=1)
            (early if k < 20 else late).append(c.n)
        else:
            ray.run(far, optic_list=optics, max_interactions=1)
        if bool(ray.blocked) or len(ray.get_plot_repr()) != k + 2:
            ctx.skip("the path ended")
            return
    ctx.check(max(late) <= 1.5 * max(early) + 200, "a step after many others is more work than one of the first", first=max(early), last=max(late), steps=n)
    ctx.ev("steps late on the path compared with early ones", 20)
    ctx.seen(n, max(early))


def rays(ctx):
    """the work for a ray does not depend on how many rays came before it, nor on what they left"""
    sc, shot = scenes.make_scene(ctx, scenes.ALL, orders=(0, 1), end="detector", n_hits=ctx.i(1, 4), decoys=ctx.i(0, 2))
    optics = sc.build(sut)
    md = scenes.budget(ctx, sc.L)
    ctx.desc = {"scene": [e.desc() for e in sc.els], "ray": shot.desc()}

    def work():
        r = shot.build()
        with inject.counting() as c:
            r.run(md, optic_list=optics, max_interactions=12)
        return c.n
    first = max(work(), work(), work())
    for _ in range(200):
        jitter(ctx, shot, sc.S).build().run(md, optic_list=optics, max_interactions=12)
    last = max(work(), work(), work())
    ctx.check(last <= 1.5 * first + 200, "a ray traced after many others is more work than one of the first", first=first, last=last)
    ctx.ev("rays late in a session compared with early ones")
    ctx.seen(first, quant(shot.d))


def peaks(f, n=15):
    """the memory n calls need while they run, the middle one (a list that grows is moved now and then)"""
    out = []
    tracemalloc.start()
    try:
        for _ in range(n):
            a = tracemalloc.get_traced_memory()[0]
            tracemalloc.reset_peak()
            f()
            out.append(tracemalloc.get_traced_memory()[1] - a)
    finally:
        tracemalloc.stop()
    return sorted(out)[n // 2]


def copies(ctx):
    """a step, or a detection, does not copy what was recorded before it (which the count of bytecodes would not show)"""
    q = ctx.pick(["path", "path", "rows"])
    n = ctx.i(2000, 5000)
    ctx.desc = {"what": q, "before": n}
    if q == "path":
        sh = Shuttle(ctx)
        one = lambda: sh.ray.run(1e9, optic_list=sh.optics, max_interactions=1)
        for _ in range(20):
            one()
        early = peaks(one)
        sh.ray.run(1e12, optic_list=sh.optics, max_interactions=n)
        if sh.ray.blocked or len(sh.ray.get_plot_repr()) < n:
            raise Skip("the path ended")
        late = peaks(one)
    else:
        el = scenes.MAKERS["detector"](ctx, "free", (0.0, 0.0, 0.0), scenes.rand_unit(ctx), 5.0)
        o = el.build(sut)

        def one():
            r = sut.Ray(np.array(madd(el.pos, 2.0, el.n)), np.array(neg(el.n)))
            r.run(5.0, optic_list=[o])
        for _ in range(20):
            one()
        early = peaks(one)
        k0 = len(o.hit_data)
        for _ in range(n // 2):
            one()
        ctx.check(len(o.hit_data) == k0 + n // 2, "rays straight onto a detector are not all recorded")
        late = peaks(one)
    ctx.check(late <= early + 4096, "a step after many others needs more memory than one of the first: it seems to copy what was recorded before",
              early=early, late=late, before=n, what=q)
    ctx.ev("steps late on a long path or a long record watched for copies")
    ctx.seen(q, n)


PROP = Prop(
    "C35",
    "random scenes traced with 300 rays after 190 of warm-up, allocation watched by tracemalloc and live Ray objects counted by the garbage "
    "collector; chains of 150-400 steps and sessions of 200 rays in which the bytecodes of the library run per step, and per ray, are "
    "counted early and late",
    [Family("memory", memory, 48, 600), Family("steps", steps, 160, 2000), Family("copies", copies, 16, 300), Family("rays", rays, 160, 2000)],
    required=["rays traced and forgotten", "surfaces met by them", "steps late on the path compared with early ones",
              "rays late in a session compared with early ones", "steps late on a long path or a long record watched for copies"],
    assumptions=["caches of bounded size are allowed (160 rays of warm-up, 24 bytes a ray of slack)", "work is counted in the library's own bytecodes, "
                 "not inside numpy; what a single step allocates is measured after 2000-5000 others"])
