"""C10 flat apertures: exactly the disc or the rectangle, exactly ahead."""
import math

import numpy as np

from ..core import Prop, Family
from ..common import *
from .. import sut, scenes, elements as E, v3
from ..v3 import *

A = ("flat",)


class FakeRay:
    pass


def shapes_direct(ctx):
    """the three flat shapes asked directly, with the crossing placed at will inside or outside the rim"""
    S = ctx.logu(0.5, 200)
    st = "float"
    if ctx.chance(0.35):
        n_raw = ctx.pick(scenes.INT_NORMALS)
        ts = [t for t in scenes.INT_NORMALS if dot(t, n_raw) == 0]
        t_raw = ctx.pick(ts) if ts else v3.any_perp(unit(n_raw))
        c = tuple(float(ctx.i(-30, 30)) for _ in range(3))
        st = ctx.pick(["int", "float"])
    else:
        n0 = scenes.rand_unit(ctx)
        n_raw = scenes.raw(ctx, n0)
        t_raw = scenes.raw(ctx, scenes.tangent_for(ctx, n0))
        c = mul(scenes.rand_unit(ctx), S * ctx.u(0, 8))
        if ctx.chance(0.2):                          # somewhere far away
            c = mul(scenes.rand_unit(ctx), 10.0 ** ctx.u(2, 5))
            ctx.ev("far from the origin")
    n, t = unit(n_raw), unit(t_raw)
    t2 = cross(n, t)
    h, w = S * ctx.logu(0.1, 3), S * ctx.logu(0.1, 3)
    if ctx.chance(0.2):
        w = h
    elif ctx.chance(0.2):                            # slits and strips
        h, w = S * 10.0 ** ctx.u(-3, 1.5), S * 10.0 ** ctx.u(-3, 1.5)
        ctx.ev("slits and strips")
    D = S * ctx.logu(0.1, 3)
    rect = sut.Rectangle(E.arr(c, st), E.arr(n_raw, st), E.arr(t_raw, st), h=h, w=w)
    if ctx.chance(0.5):
        circ = sut.Circle(E.arr(c, st), E.arr(n_raw, st), D=D)
    elif ctx.chance(0.5):
        circ = sut.Circle(E.arr(c, st), normal=E.arr(n_raw, st), R=D / 2)
    else:
        circ = sut.Circle(E.arr(c, st), normal=E.arr(n_raw, st), R=D / 2, D=D)
    plane = sut.Plane(E.arr(c, st), E.arr(n_raw, st))
    for _ in range(10):
        m = 10.0 ** ctx.u(-5.5, 0.5)                 # how far from the rim, relatively
        inside = ctx.chance(0.5)
        which = ctx.pick(["rect", "rect", "circle", "plane"])
        if which == "rect":
            k = 1 - min(m, 1.0) if inside else 1 + m
            a, b = (k, ctx.u(-1, 1)) if ctx.chance(0.5) else (ctx.u(-1, 1), k)
            if inside and ctx.chance(0.2):
                a = b = k
            a *= ctx.pick([-1, 1])
            b *= ctx.pick([-1, 1])
            q = madd(madd(c, a * h / 2, t), b * w / 2, t2)
            inside = abs(a) <= 1 and abs(b) <= 1
            margin = min(abs(abs(a) - 1) * h / 2, abs(abs(b) - 1) * w / 2) if inside else \
                max((abs(a) - 1) * h / 2, (abs(b) - 1) * w / 2)
            obj = rect
        elif which == "circle":
            k = math.sqrt(ctx.u(0, 1)) if inside and ctx.chance(0.3) else (1 - min(m, 1.0) if inside else 1 + m)
            p = ctx.u(0, 6.3)
            q = madd(madd(c, k * D / 2 * math.cos(p), t), k * D / 2 * math.sin(p), t2)
            margin = abs(k - 1) * D / 2
            obj = circ
        else:
            q = madd(madd(c, S * ctx.u(-50, 50), t), S * ctx.u(-50, 50), t2)
            inside, margin = True, 1.0
            obj = plane
        d = scenes.around(ctx, mul(n, ctx.pick([1.0, -1.0])), 0.02 if ctx.chance(0.2) else 0.2)
        if ctx.chance(0.1):
            d = mul(n, ctx.pick([1.0, -1.0]))
        elif ctx.chance(0.2):                        # grazing
            g = 10.0 ** ctx.u(-7, -1.3)
            p = ctx.u(0, 6.3)
            d = unit(madd(add(mul(t, math.cos(p)), mul(t2, math.sin(p))), g * ctx.pick([-1, 1]), n))
            ctx.ev("grazing rays")
        s = S * ctx.logu(1e-3, 30)
        ahead = ctx.chance(0.75)
        if ctx.chance(0.15):                         # right in front of it, or just behind
            s = max(1e-7, S * 10.0 ** ctx.u(-7, -3), 1e-11 * norm(c))
            ctx.ev("starts very close")
        P = madd(q, -s if ahead else s, d)
        ray = sut.Ray(E.arr(P, "float"), E.arr(scenes.raw(ctx, d), "float"))
        err = 1e-13 * (norm(c) + norm(P) + S + s) / abs(dot(d, n))
        if s < 50 * err + 1e-8:
            ctx.skip("the start is closer to the surface than rounding resolves")
            continue
        if margin < 20 * err + 1e-12:
            ctx.skip("closer to the rim than rounding resolves")
            continue
        ctx.desc = {"shape": which, "centre": c, "normal": n_raw, "tangent": t_raw, "h": h, "w": w, "D": D, "P": P, "d": d}
        r = obj.test_intersect(ray)
        want = inside and ahead
        ctx.check(bool(r[0]) == want, "%s: the ray %s the aperture %s, but test_intersect says %s" % (
            which, "is heading for" if ahead else "has left behind", "inside the rim" if inside else "outside the rim", r[0]),
            crossing=q, margin=margin)
        if want:
            ctx.check(dist(v3.tup(r[1]), q) < 100 * err + 1e-12, "the reported intersection point is off", got=r[1], expected=q)
            ctx.check(dist(v3.tup(r[2]), n) < 1e-12, "the reported normal is not the surface's unit normal", got=r[2], expected=n)
        ctx.ev("%s: %s" % (which, ("hits" if want else ("misses outside the rim" if ahead else "misses behind"))))
        ctx.seen(which, inside, ahead, round(math.log10(m)))
    # parallel rays never meet it
    d = unit(add(mul(t, ctx.u(-1, 1)), mul(t2, ctx.u(-1, 1))))
    if abs(dot(d, n)) < 1e-15:
        ray = sut.Ray(E.arr(madd(c, S * ctx.u(0.1, 2), n), "float"), E.arr(d, "float"))
        for obj in (rect, circ, plane):
            ctx.check(not obj.test_intersect(ray)[0], "a ray parallel to a surface meets it")
        ctx.ev("parallel rays")


def rims(ctx):
    """small apertures near the origin, where rounding resolves the rim to a picometre: still exactly the disc or the rectangle"""
    S = 10.0 ** ctx.u(-6, 0)
    n = scenes.rand_unit(ctx)
    t = unit(perp(scenes.tangent_for(ctx, n), n))
    t2 = cross(n, t)
    c = mul(scenes.rand_unit(ctx), S * ctx.u(0, 2)) if ctx.chance(0.7) else (0.0, 0.0, 0.0)
    h, w, D = S * ctx.logu(0.2, 3), S * ctx.logu(0.2, 3), S * ctx.logu(0.2, 3)
    rect = sut.Rectangle(E.arr(c, "float"), E.arr(n, "float"), E.arr(t, "float"), h=h, w=w)
    circ = sut.Circle(E.arr(c, "float"), E.arr(n, "float"), **ctx.pick([{"D": D}, {"R": D / 2}, {"R": D / 2, "D": D}]))
    for _ in range(8):
        m = 10.0 ** ctx.u(-11, -2) if ctx.chance(0.7) else 10.0 ** ctx.u(-2, 1)
        inside = ctx.chance(0.5)
        if m >= S and inside:
            continue
        which = ctx.pick(["rect", "circle"])
        if which == "rect":
            k = ctx.i(0, 1)
            lim = (h, w)[k] / 2
            if inside and m > lim:
                continue
            a = (lim - m if inside else lim + m) * ctx.pick([-1, 1])
            b = (w, h)[k] / 2 * ctx.u(-0.9, 0.9)
            q = madd(madd(c, (a, b)[k], t), (b, a)[k], t2)
            obj = rect
        else:
            if inside and m > D / 2:
                continue
            r = D / 2 - m if inside else D / 2 + m
            p = ctx.u(0, 6.3)
            q = madd(madd(c, r * math.cos(p), t), r * math.sin(p), t2)
            obj = circ
        d = scenes.around(ctx, mul(n, ctx.pick([1.0, -1.0])), 0.05)
        if ctx.chance(0.15):
            d = mul(n, ctx.pick([1.0, -1.0]))
        s = 1e-6 + S * ctx.logu(0.1, 10)
        P = madd(q, -s, d)
        err = 2e-15 * (norm(c) + norm(P) + S + s) / abs(dot(d, n))
        if m < 10 * err:
            ctx.skip("closer to the rim than rounding resolves")
            continue
        ctx.desc = {"shape": which, "centre": c, "normal": n, "tangent": t, "h": h, "w": w, "D": D, "P": P, "d": d}
        r = obj.test_intersect(sut.Ray(E.arr(P, "float"), E.arr(d, "float")))
        ctx.check(bool(r[0]) == inside, "%s: a ray that crosses %.2g %s the rim is said to %s" % (which, m, "inside" if inside else "outside", "hit" if r[0] else "miss"),
                  crossing=q, margin=m, rounding=err)
        if inside:
            ctx.check(dist(v3.tup(r[1]), q) < 50 * err, "the reported intersection point is off", got=r[1], expected=q)
        ctx.ev("fine rims: %s" % ("hits" if inside else "misses"))
        ctx.seen(which, inside, round(math.log10(m)), round(math.log10(S)))


def siblings(ctx):
    """shapes and optics that differ in one thing only, made one after the other: each keeps to its own rim"""
    S = ctx.logu(0.5, 100)
    n = scenes.rand_unit(ctx) if ctx.chance(0.6) else ctx.pick(scenes.AXES)
    base = {"c": mul(scenes.rand_unit(ctx), S * ctx.u(0, 4)), "n": n, "t": scenes.tangent_for(ctx, n), "h": S * ctx.logu(0.3, 3),
            "w": S * ctx.logu(0.3, 3)}
    els = []
    variants = [base]
    for _ in range(ctx.i(2, 5)):
        v = dict(ctx.pick(variants))
        k = ctx.pick(["c", "t", "t", "h", "w", "n", "swap", "turn"])
        if k == "c":
            v["c"] = madd(v["c"], S * ctx.logu(1e-3, 1), scenes.rand_unit(ctx))
        elif k == "t":
            v["t"] = v3.rodrigues(v["t"], v["n"], ctx.u(0.05, 3.1))
        elif k == "n":
            v["n"] = v3.rodrigues(v["n"], v["t"], ctx.u(-3, 3))
        elif k == "swap":
            v["h"], v["w"] = v["w"], v["h"]
        elif k == "turn":
            v["t"] = cross(v["n"], v["t"])
        else:
            v[k] *= ctx.logu(0.2, 5)
        variants.append(v)
    kind = ctx.pick(["Rectangle", "Circle", "RectMirror", "Detector", "Grating", "RoundMirror"])
    for v in variants:
        if kind == "Rectangle":
            o = sut.Rectangle(E.arr(v["c"], "float"), E.arr(v["n"], "float"), E.arr(v["t"], "float"), h=v["h"], w=v["w"])
            e = E.RectMirror(v["c"], v["n"], v["t"], v["h"], v["w"])
        elif kind == "Circle":
            o = sut.Circle(E.arr(v["c"], "float"), E.arr(v["n"], "float"), D=v["h"])
            e = E.RoundMirror(v["c"], v["n"], v["h"])
        else:
            e = {"RectMirror": lambda: E.RectMirror(v["c"], v["n"], v["t"], v["h"], v["w"]),
                 "Detector": lambda: E.Detector(v["c"], v["n"], v["t"], v["h"], v["w"]),
                 "Grating": lambda: E.Grating(v["c"], v["n"], v["t"], v["h"], v["w"], 600),
                 "RoundMirror": lambda: E.RoundMirror(v["c"], v["n"], v["h"])}[kind]()
            o = e.build(sut)
        els.append((e, o))
    for _ in range(12):
        e, o = ctx.pick(els)
        t2 = cross(e.n, unit(base["t"])) if not hasattr(e, "tan2") else e.tan2
        t = cross(t2, e.n)
        q = madd(madd(e.pos, ctx.u(-0.7, 0.7) * getattr(e, "h", getattr(e, "D", 1.0)), t), ctx.u(-0.7, 0.7) * getattr(e, "w", getattr(e, "D", 1.0)), t2)
        st = e.within(q, 1e-9 * (1 + 10 * S))
        if st == "amb":
            continue
        d = scenes.around(ctx, mul(e.n, ctx.pick([1.0, -1.0])), 0.2)
        P = madd(q, -S * ctx.logu(0.1, 5), d)
        r = o.test_intersect(sut.Ray(E.arr(P, "float"), E.arr(d, "float")))
        ctx.desc = {"kind": kind, "one": e.desc(), "made with": [x.desc() for x, _ in els], "P": P, "d": d}
        ctx.check(bool(r[0]) == (st == "in"), "of several alike surfaces one does not keep to its own rim", crossing=q, inside=st, got=r)
        if r[0]:
            ctx.check(dist(v3.tup(r[1]), q) < 1e-10 * (1 + 10 * S), "of several alike surfaces one is met elsewhere", got=r, expected=q)
        ctx.ev("alike surfaces told apart: %s" % ("hits" if r[0] else "misses"))
        ctx.seen(kind, st)


def lattice(ctx):
    """axis-aligned apertures and whole numbers: rays through every lattice point around the rim"""
    ax = ctx.i(0, 2)
    n = [0.0] * 3
    n[ax] = ctx.pick([1.0, -1.0])
    t = [0.0] * 3
    t[(ax + ctx.i(1, 2)) % 3] = ctx.pick([1.0, -1.0])
    n, t = tuple(n), tuple(t)
    t2 = cross(n, t)
    c = tuple(float(ctx.i(-9, 9)) for _ in range(3))
    h, w = ctx.i(1, 5) * 2 + 1, ctx.i(1, 5) * 2 + 1
    kind = ctx.pick(["detector", "mirror", "grating", "disc"])
    st = ctx.pick(["int", "float"])
    el = {"detector": lambda: E.Detector(c, n, t, h, w, style=st), "mirror": lambda: E.RectMirror(c, n, t, h, w, style=st),
          "grating": lambda: E.Grating(c, n, t, h, w, 600, style=st), "disc": lambda: E.RoundMirror(c, n, h, style=st)}[kind]()
    optics = [el.build(sut)]
    ctx.desc = {"element": el.desc()}
    s = ctx.i(1, 9)
    for a in range(-h // 2 - 1, h // 2 + 3):
        for b in range(-w // 2 - 1, w // 2 + 3):
            q = madd(madd(c, float(a), t), float(b), t2)
            if kind == "disc":
                r2 = a * a + b * b
                if abs(math.sqrt(r2) - h / 2) < 1e-9:
                    continue
                inside = math.sqrt(r2) < h / 2
            else:
                inside = abs(a) < h / 2 and abs(b) < w / 2     # never on the rim: half-odd sizes
            side = ctx.pick([1.0, -1.0])
            d = mul(n, -side)
            ray = sut.Ray(E.arr(madd(q, s * side, n), st), E.arr(d, st))
            ray.run(s + 1, optic_list=optics, max_interactions=1)
            e = v3.tup(ray.position)
            want = q if inside else madd(q, 1.0, d)
            ctx.check(dist(e, want) < 1e-9, "a ray aimed at lattice offset (%d, %d) %s the %s" % (
                a, b, "went through" if inside else "was stopped outside the rim of", kind), end=e, expected=want)
            ctx.ev("lattice rays")
    ctx.seen(kind, h, w, ax)


PROP = Prop(
    "C10",
    "planes, discs and rectangles in random and whole-number poses asked directly with the crossing placed 3e-6..3 relative "
    "distances inside or outside the rim, ahead or behind, incidences down to 1e-7 from grazing, strips up to 1:30000; apertures down to a micrometre with the crossing 1e-11 from the rim; whole-number lattices over the rim of every flat optic; and mixed "
    "scenes; non-trivial if the crossing is further from the rim than rounding error",
    [Family("shapes", shapes_direct, 8000),
     Family("lattice", lattice, 600, 6000), Family("siblings", siblings, 5000), Family("rims", rims, 6000),
     Family("scenes", scene_case(["mirror", "dmd", "ideal", "ideal_focus", "grating", "detector"], A, orders=(0, 1),
                                 end=[None, "detector"]), 8000)],
    required=["rect: hits", "rect: misses outside the rim", "rect: misses behind", "circle: hits",
              "circle: misses outside the rim", "circle: misses behind", "plane: hits", "grazing rays", "starts very close", "slits and strips", "alike surfaces told apart: hits", "alike surfaces told apart: misses", "lattice rays", "parallel rays", "fine rims: hits", "fine rims: misses"],
    assumptions=RAY_ASSUMPTIONS + ["height h runs along the tangent, width w along normal x tangent"])
