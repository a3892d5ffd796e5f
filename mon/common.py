"""Case families shared by the ray-tracing properties."""
import math

import numpy as np

from . import sut, scenes, v3, elements as E
from .v3 import add, sub, mul, neg, dot, cross, norm, unit, dist, madd, perp
from .trace import run_monitored, Shot, nearest
from .elements import arr

RAY_ASSUMPTIONS = [
    "oracle: independent plain-float geometry in mon/elements.py; a step is judged locally, from the vertex and "
    "direction actually observed, so no error accumulates along the path",
    "no outcome is demanded within 1e-6 of a decision boundary (rim, tie, tangency, critical angle, exhausted budget)",
    "refracting bodies do not overlap; scenes of 0.01..3000 units, up to 1e4 from the origin",
]


def quant(v, k=5):
    return tuple(float("%.*g" % (k, x)) for x in v)


def scene_case(kinds, aspects, orders=(0,), shots=5, partial=0.25, end=None, n_hits=None, decoys=None,
               max_ints=None):
    def case(ctx):
        e = ctx.pick(end) if isinstance(end, (list, tuple)) else end
        sc, shot = scenes.make_scene(ctx, list(kinds), orders=orders, end=e,
                                     n_hits=ctx.i(*n_hits) if n_hits else None,
                                     decoys=ctx.i(*decoys) if decoys else None)
        optics = sc.build(sut)
        ctx.desc = {"scene": [x.desc() for x in sc.els], "ray": shot.desc()}
        for s in [shot] + scenes.extra_shots(ctx, sc, shot, shots):
            s.order = ctx.pick(orders)
            md = scenes.budget(ctx, sc.L) if not ctx.chance(partial) else sc.L * ctx.u(0, 3)
            mi = ctx.pick(max_ints) if max_ints and ctx.chance(0.4) else 30
            res, ray = run_monitored(ctx, sc.els, optics, s, sc.L, md, max_int=mi, aspects=aspects)
            ctx.seen(tuple(res.kinds), quant(s.d))
    return case


def cavity_case(aspects, lens=True, n=(20, 80)):
    """a closed cavity: a ball mirror seen from inside, or a box of flat mirrors, with things in it"""
    def case(ctx):
        S = ctx.logu(3, 60)
        els = []
        if ctx.chance(0.5):
            els.append(E.BallMirror((0.0, 0.0, 0.0), 2 * S))
            inner = S * 0.5
        else:
            for ax in scenes.AXES:
                t = next(a for a in scenes.AXES if dot(a, ax) == 0)
                dmd = None
                els.append(E.RectMirror(mul(ax, S), scenes.raw(ctx, mul(ax, ctx.pick([1.0, -1.0]))), t, 2 * S, 2 * S,
                                        dmd, style=ctx.pick(["float", "int"])))
            inner = S * 0.8
        if lens:
            k = ctx.i(0, 2)
            for _ in range(k):
                R = inner * ctx.u(0.1, 0.35)
                c = mul(scenes.rand_unit(ctx), inner * ctx.u(0, 0.6))
                el = E.BallLens(c, 2 * R, ctx.u(1.1, 2.2)) if ctx.chance(0.7) else E.BallMirror(c, 2 * R)
                if el.refractive and not scenes.refractive_ok(els, el):
                    continue
                els.append(el)
        while True:
            P = mul(scenes.rand_unit(ctx), inner * ctx.u(0.65, 1.0) if len(els) > 1 else inner * ctx.u(0, 0.9))
            if all(not (isinstance(e, E.BallBase) and i > 0 and e.R < 0.9 * S and dist(P, e.pos) < e.R * 1.05)
                   for i, e in enumerate(els)):
                break
        shot = Shot(P, scenes.raw(ctx, scenes.rand_unit(ctx)), ctx.u(200, 2000))
        els = [els[i] for i in ctx.rng.permutation(len(els))]
        optics = [e.build(sut) for e in els]
        ctx.desc = {"scene": [e.desc() for e in els], "ray": shot.desc()}
        res, ray = run_monitored(ctx, els, optics, shot, 2 * S, S * 1000.0, max_int=ctx.i(*n), aspects=aspects)
        ctx.seen(tuple(res.kinds[:20]), quant(shot.d))
        ctx.counters["~longest path (interactions), summed"] += len(res.kinds)
    return case


class Shuttle:
    """whole-number scenes along one coordinate axis, where every distance is exact: flat mirrors at both ends, and things
    in between that let the light pass along the axis. The path is known by counting."""

    def __init__(self, ctx, middle=True):
        ax = ctx.i(0, 2)
        self.ax = tuple(1.0 if i == ax else 0.0 for i in range(3))
        tan = tuple(1.0 if i == (ax + 1) % 3 else 0.0 for i in range(3))
        self.origin = tuple(float(ctx.i(-9, 9)) for _ in range(3))
        self.h = ctx.i(1, 7) if not middle else ctx.i(2, 12)
        self.stops = {0: "mirror", self.h: "mirror"}
        if middle:
            for _ in range(ctx.i(0, 2)):
                x = ctx.i(1, self.h - 1)
                self.stops.setdefault(x, ctx.pick(["lens", "inert"]))
        self.els = []
        for x, kind in self.stops.items():
            pos = self.at(x)
            style = ctx.pick(["float", "int"])
            n = mul(self.ax, ctx.pick([1.0, -1.0, 2.0, -3.0]))
            if kind == "mirror":
                if ctx.chance(0.5):
                    self.els.append(E.RoundMirror(pos, n, 6, style=style))
                else:
                    self.els.append(E.RectMirror(pos, n, tan, 6, 4, style=style))
            elif kind == "lens":
                self.els.append(E.IdealLens(pos, n, 6, 5.0, "ideal_collimate", style=style))
            else:
                self.els.append(E.Inert(ctx.pick(["Annotation", "Filter", "Window"]), pos, self.ax))
        self.stops = {x: k for x, k in self.stops.items() if k != "inert"}
        self.els = [self.els[i] for i in ctx.rng.permutation(len(self.els))]
        self.optics = [e.build(sut) for e in self.els]
        self.x = ctx.pick([x for x in range(self.h + 1) if x not in self.stops] or [0.5])
        self.s = ctx.pick([1, -1])
        self.path = [self.x]
        st = ctx.pick(["float", "int"])
        self.ray = sut.Ray(E.arr(self.at(self.x), st), E.arr(mul(self.ax, float(self.s)), st))
        self.hits = 0

    def at(self, x):
        return madd(self.origin, float(x), self.ax)

    def run(self, D, limit=math.inf):
        """the same in numbers, and with the real code"""
        kw = {} if limit == math.inf else {"max_interactions": limit}
        self.ray.run(D, optic_list=self.optics, **kw)
        k = 0
        while D > 0 and k < limit:
            ahead = [x for x in self.stops if (x - self.x) * self.s > 0]
            nxt = min(ahead, key=lambda x: abs(x - self.x))
            g = abs(nxt - self.x)
            if g <= D:
                self.x = nxt
                D -= g
                if self.stops[nxt] == "mirror":
                    self.s = -self.s
                k += 1
            else:
                self.x += self.s * D
                D = 0
            self.path.append(self.x)
        self.hits += k
        return k

    def judge(self, ctx, what, start=0):
        V = np.asarray(self.ray.get_plot_repr(), dtype=float)
        want = np.array([self.at(x) for x in self.path])
        ok = V.shape == want.shape and bool(np.all(np.abs(V - want) < 1e-9))
        if not ok:
            n = min(len(V), len(want))
            k = next((i for i in range(n) if not np.all(np.abs(V[i] - want[i]) < 1e-9)), n)
            ctx.fail(what, scene=[e.desc() for e in self.els], points=len(V), expected_points=len(want), first_difference=k,
                     got=V[max(0, k - 2):k + 3], expected=want[max(0, k - 2):k + 3])
        ctx.check(dist(v3.tup(self.ray.position), self.at(self.x)) < 1e-9 and
                  dist(v3.tup(self.ray.direction), mul(self.ax, float(self.s))) < 1e-9 and not self.ray.blocked,
                  what + " (where the ray is and where it is heading)", scene=[e.desc() for e in self.els],
                  position=self.ray.position, direction=self.ray.direction, expected=[self.at(self.x), self.s])

    def desc(self):
        return {"scene": [e.desc() for e in self.els], "start": self.at(self.path[0]), "direction": mul(self.ax, float(self.s))}


def shuttle_case(ev, what):
    """runs in pieces whose ends may lie exactly on a surface or exactly where the ray has been before"""
    def case(ctx):
        sh = Shuttle(ctx)
        ctx.desc = sh.desc()
        for _ in range(ctx.i(2, 8)):
            q = ctx.u()
            if q < 0.3:
                D = 2 * sh.h * ctx.i(1, 3)                   # back to the very same place
            elif q < 0.6:
                ahead = [abs(x - sh.x) for x in sh.stops if (x - sh.x) * sh.s > 0]
                D = min(ahead) + (ctx.i(0, 3) * sh.h if ctx.chance(0.5) else 0)     # to end exactly on a surface
            else:
                D = ctx.i(1, 4 * sh.h)
            if D != int(D):
                D = float(D)
            elif ctx.chance(0.5):
                D = float(D)
            limit = ctx.pick([math.inf, math.inf, 1, 2, 5, 50])
            sh.run(D, limit)
            ctx.seen(sh.h, tuple(sorted(sh.stops.items())), float(D), limit)
            if ctx.chance(0.6):
                sh.judge(ctx, what)
                ctx.ev(ev)
        sh.judge(ctx, what)
        ctx.ev(ev)
    return case


def marathon_case(ev, what, lo, hi):
    """very many interactions: of one run, and of runs that follow a very long one"""
    def case(ctx):
        sh = Shuttle(ctx, middle=ctx.chance(0.3))
        ctx.desc = dict(sh.desc(), marathon=True)
        n = int(ctx.logu(lo, hi))
        q = ctx.pick(["distance", "limit", "both"])
        if q == "distance":
            sh.run(n * sh.h)
        elif q == "limit":
            sh.run(10 * n * sh.h, n)
        else:
            sh.run(n * sh.h, 3 * n)
        sh.judge(ctx, what)
        for _ in range(3):
            sh.run(ctx.i(1, 5) * sh.h + ctx.i(0, 1), ctx.pick([1, 2, 7, math.inf]))
            sh.judge(ctx, what)
        ctx.ev(ev)
        ctx.note("interactions of very long paths", sh.hits)
        ctx.seen(n, q)
    return case
