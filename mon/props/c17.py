"""C17 rays do not influence one another, and tracing changes nothing but the ray and the detectors' ledgers."""
import contextlib
import io

import numpy as np

from ..core import Prop, Family, Skip
from ..common import *
from .. import sut, scenes, elements as E, v3
from ..v3 import *
from ..trace import Shot

PUBLIC = ("position", "normal", "shape", "D", "w", "h", "f", "tangent", "type", "index", "G", "order", "dmd_normal", "thickness",
          "surface_behavior", "rc", "p_rc")
RAY_PUBLIC = ("position", "direction", "wavelength", "order", "type", "blocked")


def snap(o, names=PUBLIC):
    out = {}
    for k in names:
        if hasattr(o, k):
            v = getattr(o, k)
            out[k] = (v.dtype.str, v.copy()) if isinstance(v, np.ndarray) else v
    return out


def same(a, b):
    if a.keys() != b.keys():
        return False
    for k in a:
        x, y = a[k], b[k]
        if isinstance(x, tuple) and isinstance(y, tuple):
            if x[0] != y[0] or not np.array_equal(x[1], y[1]):
                return False
        elif not (x is y or x == y):
            return False
    return True


class Built:
    """elements built from arrays we keep hold of"""

    def __init__(self, els):
        self.given = []
        real = E.arr

        def keep(v, style):
            a = real(v, style)
            self.given.append((a, a.copy()))
            return a
        E.arr = keep
        try:
            self.optics = [e.build(sut) for e in els]
        finally:
            E.arr = real
        self.snaps = [snap(o) for o in self.optics]

    def untouched(self, ctx, when):
        for a, b in self.given:
            ctx.check(a.dtype == b.dtype and np.array_equal(a, b), "an array handed to an optic's constructor was changed by %s" % when, now=a, was=b)
        for o, s in zip(self.optics, self.snaps):
            ctx.check(same(snap(o), s), "an optic was changed by %s" % when, optic=type(o).__name__, now=snap(o), was=s)


def result(ray):
    return (np.array(ray.get_plot_repr(), dtype=float), np.array(ray.direction, dtype=float), bool(ray.blocked),
            np.array(ray.position, dtype=float))


def equal(a, b):
    return a[0].shape == b[0].shape and np.array_equal(a[0], b[0]) and np.array_equal(a[1], b[1]) and a[2] == b[2] and \
        np.array_equal(a[3], b[3])


def hits(o):
    return [tuple(float(x) for x in np.asarray(r, dtype=float)) for r in getattr(o, "hit_data", [])]


def history(ctx):
    orders = (0, 1, -1)
    sc, shot = scenes.make_scene(ctx, scenes.ALL, orders=orders, end=ctx.pick([None, "detector"]), n_hits=ctx.i(1, 5), decoys=ctx.i(0, 3))
    ctx.desc = {"scene": [e.desc() for e in sc.els], "ray": shot.desc()}
    shots = [shot] + scenes.extra_shots(ctx, sc, shot, ctx.i(3, 8))
    for s in shots[1:]:
        s.order = ctx.pick(orders)
    for _ in range(ctx.i(0, 4)):                     # next to, or all but the same as, one of the others
        s = ctx.pick(shots)
        P, d, wl, order = s.P, s.d_raw, s.wavelength, s.order
        what = ctx.i(0, 4)
        if what in (0, 2):
            P = add(P, mul(scenes.rand_unit(ctx), sc.S * 10.0 ** ctx.u(-10, -3)))
        if what in (1, 2):
            d = mul(unit(add(s.d, mul(scenes.rand_unit(ctx), 10.0 ** ctx.u(-10, -3)))), norm(s.d_raw))
        if what == 3:
            wl = wl + ctx.pick([-1, 1]) * 10.0 ** ctx.u(-6, 2.5)
            wl = wl if wl > 50 else 500.0
        if what == 4:
            order = ctx.pick(orders)
        shots.append(Shot(P, d, wl, order))
        ctx.ev("close neighbours")
    mds = [scenes.budget(ctx, sc.L) if ctx.chance(0.7) else sc.L * ctx.u(0, 3) for _ in shots]
    mis = [ctx.pick([40, 40, 1, 2]) for _ in shots]

    # alone: every ray with optics of its own
    alone, rows = [], []
    for s, md, mi in zip(shots, mds, mis):
        r = s.build()
        own = [e.build(sut) for e in sc.els]
        r.run(md, optic_list=own, max_interactions=mi)
        alone.append(result(r))
        rows.append([hits(o) for o in own])

    # together: one set of optics, some order, disturbances in between
    built = Built(sc.els)
    lst = list(built.optics)
    order = [int(i) for i in ctx.rng.permutation(len(shots))]
    rays = {}
    stepwise = ctx.chance(0.3)
    for i in order:
        s = shots[i]
        P, d = E.arr(s.P, s.style), E.arr(s.d_raw, s.style)
        P0, d0 = P.copy(), d.copy()
        talk = ctx.chance(0.2)
        with contextlib.redirect_stdout(io.StringIO()):
            ray = sut.Ray(P, d, wavelength=s.wavelength, order=s.order, type=s.type, print_trajectory=talk)
        rays[i] = (ray, P, P0, d, d0)
        disturb = ctx.pick(["none", "none", "repr", "probe", "random", "plot", "ask"])
        if disturb == "repr":
            [repr(o) for o in lst], repr(ray), str(ray), str(lst)
        elif disturb == "probe":
            ctx.rng  # extra probe rays through the same scene
            for p in sut.add_faerie_fire_rays([], sc.S * 2, np.array(s.P), N=3):
                p.run(sc.L, optic_list=lst)
        elif disturb == "random":
            np.random.seed(ctx.i(0, 10 ** 6))
        elif disturb == "ask":
            for o in lst:
                if hasattr(o, "test_intersect"):
                    o.test_intersect(ray)
        with contextlib.redirect_stdout(io.StringIO()):
            ray.run(mds[i], optic_list=lst, max_interactions=mis[i])
        if disturb == "plot":
            ray.get_plot_repr()[:] = 7.0               # what the caller does to the copy is the caller's business
        ctx.check(len(lst) == len(built.optics) and all(a is b for a, b in zip(lst, built.optics)), "a run changed the list of optics")
        ctx.ev("runs among others (%s)" % disturb)
    for i in order:
        ray, P, P0, d, d0 = rays[i]
        ctx.check(equal(result(ray), alone[i]), "a ray goes another way in company than alone", ray=shots[i].desc(), alone=alone[i][0],
                  together=ray.get_plot_repr(), scene=[e.desc() for e in sc.els], order=order)
        ctx.check(np.array_equal(P, P0) and P.dtype == P0.dtype and np.array_equal(d, d0) and d.dtype == d0.dtype,
                  "a run changed the arrays the ray was made from", position=P, was=P0, direction=d, direction_was=d0)
        ctx.check(ray.wavelength == shots[i].wavelength and ray.order == shots[i].order and ray.type == shots[i].type, "a run changed the ray's colour, "
                  "order or type")
    built.untouched(ctx, "tracing")
    for k, o in enumerate(built.optics):
        if hasattr(o, "hit_data"):
            want = [h for i in order for h in rows[i][k]]
            ctx.check(hits(o) == want, "a detector does not hold what the rays left there one by one, in the order they were run", got=hits(o),
                      expected=want)
            [repr(o), str(o)]
            ctx.check(hits(o) == want, "printing a detector changed its record")
            ctx.ev("records of rays in company compared", 1 if want else 0)
    # once more: the same again
    again = ctx.pick(order)
    s = shots[again]
    r = s.build()
    r.run(mds[again], optic_list=lst, max_interactions=mis[again])
    ctx.check(equal(result(r), alone[again]), "the same ray traced again goes another way", first=alone[again][0], again=r.get_plot_repr())
    ctx.ev("repetitions")
    ctx.seen(len(shots), quant(shot.d), tuple(len(a[0]) for a in alone))


def defaults(ctx):
    """runs without an optic list meet nothing, whatever ran before"""
    sc, shot = scenes.make_scene(ctx, ["mirror", "detector", "balllens", "ideal"], n_hits=ctx.i(1, 3))
    optics = sc.build(sut)
    ctx.desc = {"scene": [e.desc() for e in sc.els], "ray": shot.desc()}
    r = shot.build()
    r.run(scenes.budget(ctx, sc.L), optic_list=optics, max_interactions=500)
    for _ in range(3):
        r = shot.build()
        x = ctx.logu(0.1, 100)
        r.run(x)
        V = r.get_plot_repr()
        ctx.check(len(V) == 2 and dist(v3.tup(V[1]), madd(shot.P, x, shot.d)) < 1e-9 * (1 + norm(shot.P) + x) and not r.blocked,
                  "a run without optics met something", path=V)
        ctx.ev("runs without optics")
    # two optics of one kind share nothing
    a, b = [E.Detector((0.0, 0.0, 5.0), (0.0, 0.0, 1.0), (1.0, 0.0, 0.0), 4, 4).build(sut) for _ in range(2)]
    ray = sut.Ray(np.array([0.0, 0.0, 0.0]), np.array([0.0, 0.0, 1.0]))
    ray.run(10, optic_list=[a])
    ctx.check(len(a.hit_data) == 1 and len(b.hit_data) == 0, "two detectors share their hits")
    r1, r2 = shot.build(), shot.build()
    r1.run(5.0)
    ctx.check(len(r2.get_plot_repr()) == 1 and not r2.blocked, "two rays share their history")


def shared_arrays(ctx):
    """optics and rays made from one and the same array stay independent, and moving an array afterwards is the user's affair only
    before the optic was made"""
    S = ctx.logu(1, 50)
    c = np.array(mul(scenes.rand_unit(ctx), S))
    n = np.array(scenes.raw(ctx, scenes.rand_unit(ctx)))
    n0, c0 = n.copy(), c.copy()
    t = np.array(v3.any_perp(unit(v3.tup(n))))
    t0 = t.copy()
    mk = [lambda: sut.Mirror(c, normal=n, D=2 * S), lambda: sut.Detector(c, normal=n, tangent=t, h=S, w=S),
          lambda: sut.Grating(c, normal=n, tangent=t, h=S, w=S, G=600), lambda: sut.Lens(c, normal=n, D=2 * S, f=S, type="ideal"),
          lambda: sut.Mirror(c, shape="rectangular_flat", normal=n, tangent=t, h=S, w=S),
          lambda: sut.Mirror(c, shape="circular_concave_spherical", normal=n, D=S, f=S),
          lambda: sut.Mirror(c, shape="rectangular_flat", normal=n, tangent=t, h=S, w=S, type="dmd", dmd_normal=n)]
    opt = [ctx.pick(mk)() for _ in range(ctx.i(1, 4))]
    d = n if ctx.chance(0.5) else -n
    P = c - 2 * S * d / np.linalg.norm(d)
    P0 = P.copy()
    ray = sut.Ray(P, n if ctx.chance(0.5) else d, order=ctx.pick([0, 1]), wavelength=532)
    ctx.desc = {"optics": [type(o).__name__ for o in opt], "c": c, "n": n}
    for _ in range(2):
        ray.run(5 * S, optic_list=opt)
    ctx.check(np.array_equal(n, n0) and np.array_equal(c, c0) and np.array_equal(t, t0) and np.array_equal(P, P0), "making optics or tracing changed a "
              "vector of the caller", n=[n, n0], c=[c, c0], t=[t, t0], P=[P, P0])
    ctx.ev("shared vectors unchanged")


def overwritten(ctx):
    """directions, normals and tangents are taken over as values: arrays the caller uses for something else afterwards change nothing"""
    sc, shot = scenes.make_scene(ctx, ["mirror", "concave", "ideal", "detector", "grating", "compound"], orders=(0, 1), n_hits=ctx.i(1, 4))
    ctx.desc = {"scene": [e.desc() for e in sc.els], "ray": shot.desc()}
    md = scenes.budget(ctx, sc.L)
    ref = sut.Ray(E.arr(shot.P, "float"), E.arr(shot.d, "float"), wavelength=shot.wavelength, order=shot.order)
    ref.run(md, optic_list=sc.build(sut), max_interactions=20)
    want = result(ref)
    given = []
    real = E.arr

    def keep(v, style):
        a = real(v, style)
        if a.shape == (3,) and abs(float(np.dot(a, a)) - 1) < 1e-9:        # a unit vector: a direction (or a position that is one)
            given.append((a, v))
        return a
    E.arr = keep
    try:
        optics = [e.build(sut) for e in sc.els]
    finally:
        E.arr = real
    for a, v in given:
        at = [v3.tup(o.position) for o in optics if hasattr(o, "position")] + [e_centre for e in sc.els for e_centre in centres(e)]
        if any(dist(v3.tup(a), p) < 1e-9 for p in at):
            continue                                  # positions are the caller's and the optic's
        a[:] = [3, -4, 2]
        ctx.ev("normals and tangents overwritten by the caller")
    d = E.arr(shot.d, "float")
    ray = sut.Ray(E.arr(shot.P, "float"), d, wavelength=shot.wavelength, order=shot.order)
    ray2 = sut.Ray(E.arr(shot.P, "float"), d, wavelength=shot.wavelength, order=shot.order)
    d[:] = [ctx.i(-3, 3), 5, ctx.i(-3, 3)]
    for r in (ray, ray2):
        u = np.array(r.direction, dtype=float)
        ctx.check(np.allclose(u, shot.d, atol=1e-9, rtol=0), "a ray turned when the caller reused the array of its direction", now=u, was=shot.d)
    ray.run(md, optic_list=optics, max_interactions=20)
    got = result(ray)
    near = got[0].shape == want[0].shape and np.allclose(got[0], want[0], atol=1e-6 * (1 + sc.L), rtol=0) and got[2] == want[2]
    ctx.check(near, "a ray takes another way after the caller reused the arrays it and the optics were made from", got=got[0], expected=want[0])
    ctx.ev("directions overwritten by the caller")
    ctx.seen(quant(shot.d), len(want[0]))


def centres(e):
    out = []
    for k in ("c", "center", "centre", "P", "pos"):
        if hasattr(e, k):
            out.append(v3.tup(getattr(e, k)))

    def walk(t):
        if isinstance(t, tuple) and t and isinstance(t[0], str):
            for x in t[1:]:
                walk(x)
        else:
            for k in ("c", "a", "center", "p"):
                if hasattr(t, k) and np.ndim(getattr(t, k)) == 1:
                    out.append(v3.tup(getattr(t, k)))
    if hasattr(e, "tree"):
        walk(e.tree)
    return out


PROP = Prop(
    "C17",
    "histories of 4-13 rays (some of them 1e-10..1e-3 apart, or differing only in colour or order) through one shared scene, in shuffled order, with printing, repr, drawing data, probe rays, intersection "
    "queries and reseeding in between; each must be bit-identical to the same ray alone with fresh optics; arrays handed in and optics' "
    "attributes are compared before and after",
    [Family("history", history, 5000), Family("defaults", defaults, 1500), Family("shared-arrays", shared_arrays, 4000),
     Family("overwritten", overwritten, 3000)],
    required=["runs among others (%s)" % k for k in ("none", "repr", "probe", "random", "plot", "ask")] +
    ["repetitions", "records of rays in company compared", "close neighbours", "runs without optics", "shared vectors unchanged",
     "normals and tangents overwritten by the caller", "directions overwritten by the caller"],
    assumptions=["scenes from mon/scenes.py; drawing is covered by C23"])
