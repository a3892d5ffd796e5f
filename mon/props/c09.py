"""C09 the detector's ledger."""
import math

import numpy as np

from ..core import Prop, Family
from ..common import *
from .. import sut, scenes, elements as E, v3
from ..v3 import *

A = ("detector",)


def ledger(ctx):
    """many rays, several detectors, one history: every absorbed ray is recorded once, in order, where it ended"""
    sc, shot = scenes.make_scene(ctx, ["mirror", "ideal", "balllens", "detector", "detector", "grating"], end="detector",
                                 n_hits=ctx.i(1, 3), decoys=ctx.i(1, 4), orders=(0, 1))
    optics = sc.build(sut)
    ctx.desc = {"scene": [e.desc() for e in sc.els], "ray": shot.desc()}
    dets = [(e, o) for e, o in zip(sc.els, optics) if e.kind == "detector"]
    if not dets:
        return
    for _, o in dets:
        ctx.check(len(o.hit_data) == 0, "a new detector already has hits", hits=o.hit_data)
    want = {id(o): [] for _, o in dets}
    fuzzy = False
    rays = []
    shots = [shot] + scenes.extra_shots(ctx, sc, shot, ctx.i(4, 14))
    for s in list(shots):
        if ctx.chance(0.2):
            shots.append(s)                       # the same ray again: recorded again
    for s in shots:
        s.order = ctx.pick([0, 0, 1])
        md = scenes.budget(ctx, sc.L) if ctx.chance(0.8) else sc.L * ctx.u(0, 2)
        res, ray = run_monitored(ctx, sc.els, optics, s, sc.L, md, max_int=ctx.pick([1, 3, 30]), aspects=A)
        rays.append(ray)
        if ray.blocked:
            end = v3.tup(ray.position)
            on = [o for e, o in dets if e.on_surface(end, 1e-7 * (1 + sc.L))]
            if len(on) != 1:
                fuzzy = True
            elif not any(e.kind == "grating" and e.on_surface(end, 1e-7 * (1 + sc.L)) for e in sc.els):
                want[id(on[0])].append((end, s.wavelength))
        if ctx.chance(0.2) and rays:
            r = ctx.pick(rays)
            if r.blocked:
                n = [len(o.hit_data) for _, o in dets]
                r.run(sc.L, optic_list=optics)
                ctx.check(n == [len(o.hit_data) for _, o in dets], "running an absorbed ray recorded it again")
                ctx.ev("re-runs of absorbed rays")
    if fuzzy:
        ctx.skip("a ray ended on two detectors at once")
        return
    total = 0
    for e, o in dets:
        got = [np.asarray(r, dtype=float) for r in o.hit_data]
        w = want[id(o)]
        total += len(got)
        ctx.check(len(got) == len(w), "a detector holds %d hits but %d rays ended on it" % (len(got), len(w)),
                  detector=e.desc(), got=got, expected=w)
        for g, (p, wl) in zip(got, w):
            ctx.check(g.shape == (4,) and dist(v3.tup(g[:3]), p) < 1e-9 * (1 + sc.L) and g[3] == wl,
                      "a detector's rows are not (where the ray ended, its wavelength) in the order the rays were run",
                      detector=e.desc(), row=g, expected=[p, wl])
            ctx.ev("ledger rows accounted for")
    blocked = sum(1 for r in rays if r.blocked and any(e.on_surface(v3.tup(r.position), 1e-7 * (1 + sc.L)) for e, _ in dets))
    ctx.check(blocked == total, "rays absorbed by detectors and rows recorded do not balance", absorbed=blocked, rows=total)
    ctx.seen(len(shots), total)


def stack(ctx):
    """detectors one behind the other, and one detector seen from both sides"""
    S = ctx.logu(1, 100)
    n = scenes.rand_unit(ctx)
    t = scenes.tangent_for(ctx, n)
    c = mul(scenes.rand_unit(ctx), S * ctx.u(0, 5))
    k = ctx.i(1, 4)
    gaps = [S * ctx.u(0.01, 1) for _ in range(k)]
    els, s = [], 0.0
    for g in gaps:
        s += g
        els.append(E.Detector(madd(c, s, n), scenes.raw(ctx, mul(n, ctx.pick([1.0, -1.0]))), t, S * ctx.u(1, 3), S * ctx.u(1, 3)))
    order = list(ctx.rng.permutation(k))
    optics = [els[i].build(sut) for i in order]
    e2 = [els[i] for i in order]
    ctx.desc = {"detectors": [e.desc() for e in e2]}
    for _ in range(6):
        up = ctx.chance(0.5)
        d = scenes.around(ctx, n if up else neg(n), 0.3)
        tgt = madd(madd(els[0].pos, S * ctx.u(-0.4, 0.4), t), S * ctx.u(-0.4, 0.4), cross(n, t))
        P = madd(tgt, -S * ctx.u(0.5, 6), d)
        shot = Shot(P, scenes.raw(ctx, d), ctx.pick([ctx.u(200, 2000), ctx.u(200, 2000), ctx.pick([int, float, np.float32, np.float64, np.int32, np.int64])(ctx.i(200, 2000))]))
        res, ray = run_monitored(ctx, e2, optics, shot, norm(c) + 10 * S, 40 * S, aspects=A)
        ctx.seen(tuple(res.kinds), up)


def busy(ctx):
    """thousands of rays on one detector: every one of them is kept"""
    n = int(ctx.logu(800, 6000))
    S = ctx.logu(1, 50)
    ax = scenes.rand_unit(ctx)
    t = scenes.tangent_for(ctx, ax)
    t2 = cross(ax, t)
    c = mul(scenes.rand_unit(ctx), S * ctx.u(0, 3))
    det = E.Detector(c, scenes.raw(ctx, ax), t, S, S)
    o = det.build(sut)
    xy = ctx.rng.uniform(-0.49, 0.49, (n, 2)) * S
    kind = ctx.pick([float, float, np.float64, np.float32, np.int16, np.int64, int])
    wl = ctx.rng.uniform(200, 2000, n) if kind in (float, np.float64) else ctx.rng.integers(200, 2000, n).astype(float)
    ctx.desc = {"detector": det.desc(), "rays": n, "wavelengths": kind.__name__}
    T, T2, X = np.array(t), np.array(t2), np.array(ax)
    want = np.array(c) + xy[:, :1] * T + xy[:, 1:] * T2
    for k in range(n):
        sut.Ray(want[k] - S * X, X, wavelength=kind(wl[k])).run(2 * S, optic_list=[o])
    got = np.array([np.asarray(r, dtype=float) for r in o.hit_data])
    ctx.check(got.shape == (n, 4), "of %d rays that ended on the detector it holds %d" % (n, len(o.hit_data)))
    ctx.check(bool(np.all(np.abs(got[:, :3] - want) < 1e-9 * (1 + 5 * S)) and np.all(got[:, 3] == wl)),
              "of thousands of hits some are not where the rays ended, in order, with their wavelengths")
    ctx.ev("hits on busy detectors", n)
    ctx.seen(n)


def flood(ctx):
    """tens of thousands of rays on one detector: none is forgotten"""
    n = 40000 if ctx.tier == "quick" else 150000
    o = E.Detector((0.0, 0.0, 5.0), (0.0, 0.0, 1.0), (1.0, 0.0, 0.0), 3.0, 3.0).build(sut)
    d = np.array([0.0, 0.0, 1.0])
    ctx.desc = {"rays": n}
    for k in range(n):
        sut.Ray(np.array([0.3, 0.0, 4.0]), d, wavelength=k).run(2.0, optic_list=[o])
    ctx.check(len(o.hit_data) == n, "of %d rays that ended on the detector it holds %d" % (n, len(o.hit_data)))
    w = np.array([np.asarray(r, dtype=float) for r in o.hit_data])
    ctx.check(bool(np.array_equal(w[:, 3], np.arange(n)) and np.all(np.abs(w[:, :3] - (0.3, 0.0, 5.0)) < 1e-9)), "of tens of thousands of hits some are not "
              "those of the rays that ended there, in order")
    ctx.ev("hits on a flooded detector", n)
    ctx.seen(ctx.idx)


def late(ctx):
    """a ray that reaches the detector after hundreds of reflections is recorded like any other"""
    n = int(ctx.logu(20, 1500))
    S = ctx.logu(0.5, 20)
    x = scenes.rand_unit(ctx)
    y = scenes.tangent_for(ctx, x)
    y = unit(perp(y, x))
    c = mul(scenes.rand_unit(ctx), S * ctx.u(0, 3))
    adv = S * ctx.u(0.1, 1)                      # along y per crossing
    Y = adv * (n + ctx.u(0.1, 0.9))              # how far the detector is: n reflections before it
    m = [E.RectMirror(madd(madd(c, Y / 2, y), s * S / 2, x), scenes.raw(ctx, mul(x, ctx.pick([1.0, -1.0]))), y, 4 * Y + 4 * S, 4 * Y + 4 * S) for s in (1, -1)]
    det = E.Detector(madd(c, Y, y), scenes.raw(ctx, mul(y, ctx.pick([1.0, -1.0]))), x, 3 * S, 3 * S)
    els = m + [det]
    optics = [e.build(sut) for e in els]
    od = optics[2]
    k = ctx.pick([[0, 1, 2], [2, 0, 1], [1, 2, 0], [0, 2, 1]])
    rows = []
    ctx.desc = {"reflections": n, "mirrors": [e.desc() for e in m], "detector": det.desc()}
    for _ in range(ctx.i(1, 3)):
        x0 = ctx.u(-0.4, 0.4) * S
        # unfolded: crossing t of width S per adv along y
        t = Y / adv
        X = x0 / S + t                           # in units of the gap, measured from the middle
        cell = math.floor(X + 0.5)
        off = X - cell
        if 0.5 - abs(off) < 0.01:
            continue
        want = madd(madd(c, Y, y), (off if cell % 2 == 0 else -off) * S, x)
        d = unit(madd(mul(x, S), adv, y))
        wl = ctx.u(200, 2000)
        ray = sut.Ray(E.arr(madd(c, x0, x), "float"), E.arr(scenes.raw(ctx, d), "float"), wavelength=wl)
        ray.run(2 * Y / dot(d, y) + S, optic_list=[optics[i] for i in k], max_interactions=n + 50)
        V = ray.get_plot_repr()
        ctx.check(ray.blocked and abs(len(V) - 2 - n) <= 1, "the ray did not reach the detector between its mirrors", vertices=len(V), end=V[-1])
        rows.append((want, wl))
        ctx.check(len(od.hit_data) == len(rows), "after %d reflections the ray was absorbed by a detector that did not record it" % (len(V) - 2),
                  rows=od.hit_data)
        g = np.asarray(od.hit_data[-1], dtype=float)
        ctx.check(g.shape == (4,) and dist(v3.tup(g[:3]), want) < 1e-11 * (n + 10) * (Y + norm(c) + S) and g[3] == wl,
                  "a ray that reached the detector after many reflections is recorded in the wrong place", row=g, expected=[want, wl])
        ctx.check(dist(v3.tup(g[:3]), v3.tup(ray.position)) < 1e-12 * (1 + norm(want)), "the row is not where the ray ended", row=g, end=ray.position)
        ctx.ev("late arrivals recorded")
    ctx.seen(n)


def probes():
    """a Block is an absorber too (known finding: it cannot be traced at all)"""
    blk = sut.Block(np.array([0.0, 0.0, 5.0]), np.array([0.0, 0.0, 1.0]), "circular_flat")
    ray = sut.Ray(np.array([0.0, 0.0, 0.0]), np.array([0.0, 0.0, 1.0]))
    try:
        ray.run(10.0, optic_list=[blk])
    except Exception as e:
        return [{"key": "block-in-optic-list", "message": "tracing past a Block raised %r" % e,
                 "witness": {"block": repr(blk), "ray": "from (0, 0, 0) along +z"}}]
    return []


PROP = Prop(
    "C09",
    "histories of 5-20 rays (some repeated, some re-run after absorption, some stopped short) in scenes with several detectors, "
    "and stacks of detectors met from both sides; conservation: every ray that ends on a detector is exactly one row there, in "
    "order, with its end point and wavelength, and nothing else is recorded",
    [Family("ledger", ledger, 6000),
     Family("stack", stack, 5000),
     Family("busy", busy, 24, 200),
     Family("late", late, 200, 1500), Family("flood", flood, 1, 2),
     Family("scenes", scene_case(["mirror", "ideal", "balllens", "detector", "compound", "concave", "grating"],
                                 ("detector",), orders=(0, 1), end="detector", partial=0.4, max_ints=[0, 1, 2, 3]), 5000)],
    required=["ledger rows accounted for", "detector rows checked", "re-runs of absorbed rays", "hits on busy detectors", "late arrivals recorded", "absorptions checked: detector"],
    assumptions=RAY_ASSUMPTIONS, probes=probes)
