"""C32 optics a user makes take part in a scene like the built-in ones."""
import numpy as np

from ..core import Prop, Family, Skip
from ..common import *
from .. import sut, scenes, elements as E, v3
from ..v3 import *
from ..trace import Shot, nearest, finite
from .c17 import result, equal


def where(ray):
    return tuple(float(x) for x in np.asarray(ray.position, dtype=float))


class Proxy(sut.Optic):
    """a user's own optic that behaves exactly like another one, and keeps a diary"""

    def __init__(self, inner, diary):
        self.inner, self.diary = inner, diary

    def test_intersect(self, *a, **k):
        return self.inner.test_intersect(*a, **k)

    def do_intersect(self, ray, *a, **k):
        self.diary.append((self, ray, where(ray), tuple(map(float, np.asarray(ray.get_plot_repr()[-1], dtype=float))), len(ray.get_plot_repr()),
                           np.array(ray.direction, dtype=float)))
        return self.inner.do_intersect(ray, *a, **k)

    def get_index_at_point_if_inside(self, point):
        return self.inner.get_index_at_point_if_inside(point)

    def __repr__(self):
        return "my " + repr(self.inner)


class Bare:
    """the same, no more than the two answers an optic has to give"""
    __slots__ = ("inner", "diary")

    def __init__(self, inner, diary):
        self.inner, self.diary = inner, diary

    def test_intersect(self, ray):
        return self.inner.test_intersect(ray)

    def do_intersect(self, *a, **k):
        return Proxy.do_intersect(self, *a, **k)


def proxies(ctx):
    """a scene seen through transparent user optics is the same scene"""
    sc, shot = scenes.make_scene(ctx, scenes.ALL, orders=(0, 1, -1, 2), end=ctx.pick([None, "detector"]), n_hits=ctx.i(1, 6), decoys=ctx.i(0, 3))
    ctx.desc = {"scene": [e.desc() for e in sc.els], "ray": shot.desc()}
    diary = []
    plain = sc.build(sut)
    inner = sc.build(sut)
    own = [ctx.chance(0.6) for _ in inner]
    if not any(own):
        own[ctx.i(0, len(own) - 1)] = True
    kind = ctx.pick([Proxy, Bare])
    mine = [kind(o, diary) if w and e.kind != "inert" else o for o, w, e in zip(inner, own, sc.els)]
    for s in [shot] + scenes.extra_shots(ctx, sc, shot, 3):
        if ctx.chance(0.15):
            s.type = "faerie_fire"
        md = scenes.budget(ctx, sc.L) if ctx.chance(0.8) else sc.L * ctx.u(0, 3)
        mi = ctx.pick([40, 40, 40, 1, 2, 3])
        a, b = s.build(), s.build()
        del diary[:]
        a.run(md, optic_list=plain, max_interactions=mi)
        b.run(md, optic_list=mine, max_interactions=mi)
        A, B = result(a), result(b)
        ctx.check(equal(A, B), "a ray goes another way when an optic is wrapped in a user's optic that behaves exactly like it", ray=s.desc(),
                  plain=A[0], wrapped=B[0], own=own)
        ctx.check(a.wavelength == b.wavelength and a.order == b.order, "the ray's wavelength or order differs")
        V = B[0]
        last = 0
        for who, ray, pos, end, n, d in diary:
            ctx.check(ray is b, "do_intersect is called for another ray", ray=s.desc())
            ctx.check(n > last and n <= len(V), "do_intersect is called more than once, or not in order, for one vertex", vertex=n, after=last, path=V)
            ctx.check(bool(np.all(V[n - 1] == end)) and dist(pos, end) <= 1e-12 * (1 + norm(end)),
                      "do_intersect is called while the ray is not at the vertex it has just reached", position=pos, path=V[:n + 1])
            step = V[n - 1] - V[n - 2]
            ln = float(np.linalg.norm(step))
            if ln > 1e-6 * (1 + sc.L):
                ctx.check(float(np.linalg.norm(step / ln - d)) < 1e-7, "do_intersect does not see the ray still heading the way it came", heading=d,
                          step=step)
            last = n
            ctx.ev("calls of a user's do_intersect checked")
            if kind is Bare:
                ctx.ev("calls of a bare object's do_intersect checked")
        if s.type == "faerie_fire":
            ctx.check(not diary, "a probe ray triggers do_intersect", ray=s.desc())
            ctx.ev("probe rays at users' optics")
        elif all(own) and not any(e.kind == "inert" for e in sc.els):
            hits = len(V) - 1 - (0 if A[2] else 1)              # an unblocked ray ends with free flight, or at its limit
            ctx.check(len(diary) in ((hits,) if A[2] else (hits, hits + 1)), "do_intersect is called for %d of %d surfaces met" % (len(diary), hits),
                      ray=s.desc(), path=V)
            ctx.ev("runs whose every surface called a user's optic")
        ctx.seen(quant(s.d), len(V), tuple(own))


class Own:
    """the oracle's side of a flat user optic doing something of its own to the ray"""
    kind = "mine"
    sub = "user's"
    manner = 0

    def build(self, m):
        me = self

        class UserOptic(getattr(sut, self.base)):
            def do_intersect(self, ray, *a, **k):
                me.calls.append((ray, where(ray)))
                w = me.what
                if "wavelength" in w:
                    ray.wavelength = w["wavelength"]
                if "order" in w:
                    ray.order = w["order"]
                if "turn" in w:
                    ray.direction = np.array(w["turn"])
                if "reflect" in w:
                    ray.reflect(normal=np.array(w["reflect"]))
                if "absorb" in w:
                    ray.blocked = True

        Plain = UserOptic

        class Otherwise(Plain):                            # the same in other people's words
            def test_intersect(self, thing):
                a, p, n, o = Plain.test_intersect(self, thing)
                return [np.bool_(a), int(bool(a)), np.array([a])[0]][me.manner % 3], p, n, o

            def do_intersect(self, light, p, n, o):
                Plain.do_intersect(self, light, p, n, o)
        if me.manner:
            UserOptic = Otherwise
        if hasattr(self, "tan_raw"):
            kw = {"normal": E.arr(self.n_raw, self.style), "tangent": E.arr(self.tan_raw, self.style), "h": self.h, "w": self.w}
            kw.update({"Mirror": {"shape": "rectangular_flat"}, "Grating": {"G": 600}, "Detector": {}}[self.base])
        else:
            kw = {"normal": E.arr(self.n_raw, self.style), "D": self.D}
            kw.update({"Mirror": {}, "Lens": {"f": 3 * self.D, "type": "ideal"}}[self.base])
        return UserOptic(E.arr(self.pos, self.style), **kw)

    def act(self, Q, d, payload, ray):
        w = self.what
        ray["wavelength"] = w.get("wavelength", ray["wavelength"])
        ray["order"] = w.get("order", ray["order"])
        if "absorb" in w:
            return ("block",)
        if "turn" in w:
            return ("dir", w["turn"], 1.0)
        if "reflect" in w:
            return ("dir", E.reflect(d, unit(w["reflect"])), 1.0)
        return ("dir", d, 1.0)

    def desc(self):
        return "user's kind of %s at %s, normal %s, sizes %r: %r" % (
            self.base, v3.fmt(self.pos), v3.fmt(self.n_raw), [self.h, self.w] if hasattr(self, "tan_raw") else self.D, self.what)


class Mine(Own, E.RoundMirror):
    def __init__(self, pos, n_raw, D, what, base="Mirror", **k):
        E.RoundMirror.__init__(self, pos, n_raw, D, **k)
        self.what, self.base, self.calls = what, base, []


class MineRect(Own, E.RectMirror):
    def __init__(self, pos, n_raw, tan_raw, h, w, what, base="Mirror", **k):
        E.RectMirror.__init__(self, pos, n_raw, tan_raw, h, w, **k)
        self.what, self.base, self.calls = what, base, []


def make_mine(ctx, style, H, d, S):
    n_raw, n = scenes.flat_pose(ctx, style, H, d, S)
    D = S * ctx.logu(0.3, 2.0)
    e = v3.rodrigues(v3.any_perp(n), n, ctx.u(0, 6.3))
    pos = madd(H, D * ctx.u(0, 0.45), e)
    if style == "axis":
        pos = tuple(float(round(x)) for x in pos)
    what = {}
    q = ctx.u()
    if q < 0.45:
        what["turn"] = scenes.around(ctx, ctx.pick([n, neg(n)]), 0.2)
    elif q < 0.65:
        what["reflect"] = mul(scenes.around(ctx, n, 0.9), ctx.logu(0.1, 10))
    elif q < 0.7:
        what["absorb"] = True
    if ctx.chance(0.4):
        what["wavelength"] = ctx.u(200, 1500)
    if ctx.chance(0.4):
        what["order"] = ctx.pick([0, 1, -1, 2])
    if style == "axis" or ctx.chance(0.5):
        e = Mine(pos, n_raw, D, what, ctx.pick(["Mirror", "Mirror", "Lens"]))
    else:
        e = MineRect(pos, n_raw, scenes.raw(ctx, unit(perp(e, n))), D, D * ctx.u(0.3, 1.2), what, ctx.pick(["Mirror", "Detector", "Detector", "Grating"]))
    e.manner = ctx.pick([0, 0, 1, 2, 3])
    return e


def follow(ctx, els, shot, ray, L, md, mi):
    """judge every step of a run from the vertices observed; returns the encounters and the state the ray must be in"""
    V = [tuple(float(x) for x in p) for p in np.asarray(ray.get_plot_repr(), dtype=float)]
    ctx.check(all(finite(p) for p in V), "the path is not finite", path=V)
    info = {"order": shot.order, "wavelength": shot.wavelength}
    P, d, k, left, n, met = V[0], shot.d, 0, float(md), 0, []
    while True:
        if n >= mi or (met and met[-1] is None):
            ctx.check(k == len(V) - 1, "the ray goes on although it ran out of interactions or was absorbed", path=V, met=len(met))
            return met, info, d, True
        if left < 1e-6 * (1 + L):
            return met, info, d, False
        r = nearest(els, P, d, L)
        m = 1e-6 * (1 + L)
        if (r[0] == "amb" and r[1] < left + m) or (r[0] == "hit" and abs(r[2] - left) < m):
            return met, info, d, False
        hit = r[0] == "hit" and r[2] < left
        Q = madd(P, r[2] if hit else left, d)
        ctx.check(k + 1 < len(V), "the path stops although the ray has %g left to go and is not absorbed" % left, path=V, met=[e.desc() for e in met])
        ctx.check(dist(V[k + 1], Q) < 1e-8 * (1 + L) + 1e-11 * left, "the next vertex is not where the ray first meets something or runs out of distance",
                  index=k + 1, got=V[k + 1], expected=Q, element=r[1].desc() if hit else "free flight", scene=[e.desc() for e in els], path=V)
        ctx.ev("steps followed")
        k += 1
        if not hit:
            ctx.check(k == len(V) - 1, "the ray goes on after its distance is used up", path=V)
            return met, info, d, True
        left -= dist(V[k - 1], V[k])
        n += 1
        met.append(r[1])
        a = r[1].act(V[k], d, r[3], info)
        if a[0] == "amb":
            return met, info, d, False
        if a[0] == "block":
            met.append(None)
            continue
        want = unit(a[1])
        if k < len(V) - 1:
            s = dist(V[k], V[k + 1])
            ctx.check(s > 0, "a step of no length", path=V)
            got = unit(sub(V[k + 1], V[k]))
            if 1e-14 * (1 + max(norm(V[k]), norm(V[k + 1]))) / s > 1e-9:
                return met, info, d, False
        else:
            got = unit(tuple(float(x) for x in ray.direction))
        alt = info.pop("alt", want)
        ctx.check(dist(got, want) < 1e-7 * max(1.0, a[2]) or dist(got, alt) < 1e-7 * max(1.0, a[2]), "the ray leaves in the wrong direction", element=r[1].desc(), at=V[k], got=got, expected=want)
        P, d = V[k], got


def custom(ctx):
    """users' optics that turn, recolour, reorder or absorb, among built-in ones"""
    scenes.MAKERS["mine"] = make_mine
    kinds = ["mine", "mine", "mine", "mine", "grating", "grating", "mirror", "ballmirror", "balllens", "ideal", "compound"]
    sc, shot = scenes.make_scene(ctx, kinds, orders=(0, 1, -1), end=ctx.pick([None, "detector"]), n_hits=ctx.i(2, 6), decoys=ctx.i(0, 2))
    ctx.desc = {"scene": [e.desc() for e in sc.els], "ray": shot.desc()}
    optics = sc.build(sut)
    for s in [shot] + scenes.extra_shots(ctx, sc, shot, 3):
        md = scenes.budget(ctx, sc.L) if ctx.chance(0.8) else sc.L * ctx.u(0, 3)
        mi = ctx.pick([40, 40, 40, 1, 2, 3])
        for e in sc.els:
            if e.kind == "mine":
                e.calls = []
        old = [len(o.hit_data) if e.kind == "detector" else 0 for e, o in zip(sc.els, optics)]
        r = s.build()
        r.run(md, optic_list=optics, max_interactions=mi)
        met, info, d, whole = follow(ctx, sc.els, s, r, sc.L, md, mi)
        V = np.asarray(r.get_plot_repr(), dtype=float)
        if not whole:
            ctx.skip("borderline encounter")
            continue
        absorbed = bool(met) and met[-1] is None
        met = [e for e in met if e is not None]
        ctx.check(bool(r.blocked) == absorbed, "the ray is marked %sabsorbed" % ("not " if absorbed else ""), met=[e.desc() for e in met])
        ctx.check(r.wavelength == info["wavelength"] and r.order == info["order"], "the ray does not keep the wavelength or order a user's optic gave it",
                  got=[r.wavelength, r.order], expected=info)
        for e, o, n in zip(sc.els, optics, old):
            if e.kind == "mine":
                at = [V[i + 1] for i, x in enumerate(met) if x is e]
                ctx.check(len(e.calls) == len(at) and all(c[0] is r and dist(c[1], tuple(p)) < 1e-9 * (1 + sc.L) for c, p in zip(e.calls, at)),
                          "a user's optic met %d times was called %d times" % (len(at), len(e.calls)), calls=[c[1] for c in e.calls], vertices=at)
                ctx.ev("users' optics met", len(at))
                ctx.ev("users' kinds of %s" % e.base, len(at))
                for w in e.what:
                    ctx.ev("users' optics that " + w, len(at))
            elif e.kind == "detector":
                new = o.hit_data[n:]
                ctx.check(len(new) == (1 if met and met[-1] is e else 0), "the detector's rows", rows=new)
                for row in new:
                    ctx.check(float(row[3]) == info["wavelength"], "the detector does not record the wavelength a user's optic gave the ray", row=row)
                    ctx.ev("detections after users' optics")
        for i, e in enumerate(met):
            if e.kind == "grating" and any(x.kind == "mine" and ({"wavelength", "order"} & set(x.what)) for x in met[:i]):
                ctx.ev("gratings after a change of wavelength or order")
        ctx.seen(quant(s.d), tuple(e.kind for e in met))


def jumps(ctx):
    """an optic that sets the ray down elsewhere (a periodic wall): the jump costs no distance, and the flight goes on from there"""
    S = ctx.logu(0.1, 100)
    n = scenes.rand_unit(ctx)
    c = mul(scenes.rand_unit(ctx), S * ctx.u(0, 3))
    shift = mul(n, -S) if ctx.chance(0.6) else add(mul(n, -S), mul(scenes.tangent_for(ctx, n), S * ctx.u(-0.02, 0.02)))
    wall = E.RoundMirror(madd(c, S / 2, n), n, 1e4 * S)
    seen = []

    class Portal(sut.Mirror):
        def do_intersect(self, ray, *a, **k):
            seen.append(where(ray))
            ray.position = ray.position + np.array(shift)
    o = Portal(E.arr(wall.pos, "float"), normal=E.arr(wall.n_raw, "float"), D=wall.D)
    d = scenes.around(ctx, n, 0.3)
    P = madd(c, S * ctx.u(-0.4, 0.4), n)
    N = ctx.i(0, 12)
    t0 = dot(sub(wall.pos, P), n) / dot(d, n)
    hop = S / dot(d, n)
    md = t0 * ctx.u(0.1, 0.9) if N == 0 else t0 + hop * (N - 1 + ctx.u(0.1, 0.9))
    cut = ctx.chance(0.4)                                      # with a limit, then on with what is left
    optics = [o]
    if ctx.chance(0.5):                                        # something the ray passes by again and again, and a detector far off
        optics.insert(ctx.i(0, 1), E.Inert("Annotation", c, n).build(sut))
    ray = sut.Ray(E.arr(P, "float"), E.arr(d, "float"), wavelength=500.0)
    ctx.desc = {"wall": wall.desc(), "shift": shift, "P": P, "d": d, "distance": md, "jumps": N}
    if cut and N > 1:
        k = ctx.i(1, N - 1)
        ray.run(md, optic_list=optics, max_interactions=k)
        ctx.check(len(seen) == k, "limited to %d meetings with a user's optic, %d" % (k, len(seen)))
        ray.run(md - (t0 + hop * (k - 1)), optic_list=optics)
    else:
        ray.run(md, optic_list=optics)
    want = madd(madd(P, md, d), float(N), shift)
    ctx.check(len(seen) == N, "a wall that sets the ray down elsewhere is met %d times, not %d times" % (len(seen), N), at=seen)
    tol = 1e-9 * (1 + norm(c) + S * (N + 1)) / dot(d, n)
    for k, q in enumerate(seen):
        ctx.check(dist(q, madd(madd(P, t0 + k * hop, d), float(k), shift)) < tol, "the wall is met elsewhere", meeting=k, got=q)
    ctx.check(dist(v3.tup(ray.position), want) < tol, "a ray that a user's optic sets down elsewhere does not fly on from there for the rest of its distance",
              got=ray.position, expected=want)
    ctx.ev("jumps", N)
    ctx.seen(N, cut, quant((S,)))


def splitter(ctx):
    """an optic that sends a ray of its own through the same scene while it is being met"""
    depth = ctx.i(1, 3)
    kinds = ["mirror", "ballmirror", "balllens", "grating", "ideal", "compound", "concave", "dmd"]
    sc, shot = scenes.make_scene(ctx, kinds, orders=(0, 1, -1), n_hits=ctx.i(1, 4), decoys=ctx.i(0, 2), end=ctx.pick([None, "detector"]))
    md = scenes.budget(ctx, sc.L)
    st = ctx.pick(["mirror", "mirror", "balllens", "compound"])
    t = ctx.u(0.05, 0.4) * min(1.0, sc.S / sc.L) * sc.L
    split = scenes.make_flat(ctx, "mirror", "free", madd(shot.P, t, shot.d), shot.d, sc.S)
    ctx.desc = {"scene": [e.desc() for e in sc.els], "splitter": split.desc(), "ray": shot.desc()}
    shots = [shot] + scenes.extra_shots(ctx, sc, shot, 2)
    at = ctx.i(0, len(sc.els))

    def trace(s, when):
        """when: 'inside' runs the children while the splitter is being met, 'after' when the parent is done"""
        rest = sc.build(sut)
        base = split.build(sut)
        children, todo = [], []

        class Splitter(sut.Optic):
            def __init__(self):
                pass

            def test_intersect(self, *a, **k):
                return base.test_intersect(*a, **k)

            def do_intersect(self, ray, *a, **k):
                gen = getattr(ray, "generation", 0)
                through = np.array(ray.direction, dtype=float)
                base.do_intersect(ray, *a, **k)
                if gen >= depth or len(children) > 12:
                    return
                c = sut.Ray(np.array(ray.position, dtype=float), through, wavelength=ray.wavelength, order=ray.order)
                c.generation = gen + 1
                children.append(c)
                if when == "inside":
                    c.run(md, optic_list=optics, max_interactions=8)
                else:
                    todo.append(c)
        optics = rest[:at] + [Splitter()] + rest[at:]
        r = s.build()
        r.generation = 0
        r.run(md, optic_list=optics, max_interactions=8)
        while todo:
            todo.pop(0).run(md, optic_list=optics, max_interactions=8)
        rows = sorted(tuple(float(x) for x in row) for e, o in zip(sc.els, rest) if e.kind == "detector" for row in o.hit_data)
        return [result(r)] + sorted((result(c) for c in children), key=lambda x: (x[0].shape, x[0].tolist())), rows
    for s in shots:
        (A, ra), (B, rb) = trace(s, "inside"), trace(s, "after")
        if len(A) > 12 or len(B) > 12:
            ctx.skip("very many splits")
            continue
        ctx.check(len(A) == len(B) and all(equal(x, y) for x, y in zip(A, B)),
                  "rays go another way when a run is started while another is under way", ray=s.desc(), inside=[x[0] for x in A], after=[x[0] for x in B])
        ctx.check(ra == rb, "detectors record something else when a run is started while another is under way", inside=ra, after=rb)
        if len(A) > 1:
            ctx.ev("runs with runs started in the middle")
            ctx.ev("rays started in the middle of a run", len(A) - 1)
        ctx.seen(quant(s.d), len(A))


def inert(ctx):
    """users' annotations are drawn, never met"""
    sc, shot = scenes.make_scene(ctx, scenes.ALL, orders=(0, 1), n_hits=ctx.i(1, 4), decoys=ctx.i(0, 2))
    ctx.desc = {"scene": [e.desc() for e in sc.els], "ray": shot.desc()}
    touched = []

    class Note(sut.Annotation):
        def __init__(self, *a):
            self.position = np.zeros(3)

        def test_intersect(self, *a, **k):
            touched.append("test_intersect")
            raise RuntimeError("an annotation was asked for an intersection")

        def do_intersect(self, *a, **k):
            touched.append("do_intersect")
            raise RuntimeError("an annotation was met")
    lst = sc.build(sut)
    for _ in range(ctx.i(1, 3)):
        lst.insert(ctx.i(0, len(lst)), Note())
    md = scenes.budget(ctx, sc.L)
    for s in [shot] + scenes.extra_shots(ctx, sc, shot, 2):
        a, b = s.build(), s.build()
        a.run(md, optic_list=sc.build(sut), max_interactions=40)
        b.run(md, optic_list=lst, max_interactions=40)
        ctx.check(equal(result(a), result(b)) and not touched, "a user's annotation takes part in tracing", touched=touched, ray=s.desc())
        ctx.ev("runs past users' annotations")
    ctx.seen(quant(shot.d))


PROP = Prop(
    "C32",
    "scenes in which some or all optics are wrapped in transparent user optics (subclasses of Optic), compared bit for bit with the plain scene and "
    "their calls with the path; user optics that turn, recolour, re-order or absorb the ray among gratings, mirrors, lenses and detectors, followed "
    "step by step by the analytic model; beam splitters that run rays of their own while they are met (nested up to 3 deep); annotations of users",
    [Family("proxies", proxies, 3000), Family("custom", custom, 5000), Family("splitter", splitter, 1500), Family("jumps", jumps, 2000), Family("inert", inert, 500)],
    required=["calls of a bare object's do_intersect checked", "calls of a user's do_intersect checked", "probe rays at users' optics", "runs whose every surface called a user's optic",
              "users' optics that turn", "users' optics that wavelength", "users' optics that order", "users' optics that absorb",
              "users' optics that reflect", "detections after users' optics", "gratings after a change of wavelength or order",
              "runs with runs started in the middle", "runs past users' annotations", "jumps"] +
             ["users' kinds of " + k for k in ("Mirror", "Lens", "Detector", "Grating")],
    assumptions=RAY_ASSUMPTIONS + ["how often test_intersect is called is not judged; users' optics override do_intersect, or pass test_intersect on"])
