"""C37 an argument left out means its default, every time; arguments may be given by position or by name."""
import contextlib
import io
import os
import shutil
import tempfile

import numpy as np

from ..core import Prop, Family, Skip
from ..common import *
from .. import sut, scenes, elements as E, v3
from ..v3 import *
from ..trace import Shot
from .c17 import result, equal
from .c23 import axes3d
from .c28 import Guard


def val(x):
    """something comparable out of any result"""
    if isinstance(x, np.ndarray):
        return (x.shape, x.dtype.kind, tuple(repr(float(v)) for v in x.ravel()))
    if isinstance(x, (list, tuple)):
        return tuple(val(v) for v in x)
    if isinstance(x, (float, np.floating)):
        return repr(float(x))
    if isinstance(x, (int, np.integer)):
        return repr(float(x))
    return x


def outcome(f):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        try:
            r = ("value", val(f()))
        except Exception as e:
            r = ("raised", type(e).__name__)
    return r + (out.getvalue(),)


def agree(ctx, what, ways):
    """ways: [(description, thunk)]; all of them must come out alike, in any order and again"""
    order = [int(i) for i in ctx.rng.permutation(len(ways))]
    got = {}
    for i in order + [order[0]]:
        r = outcome(ways[i][1])
        ctx.check(got.setdefault(i, r) == r, "%s: the same call comes out differently the second time (%s)" % (what, ways[i][0]), first=got[i], now=r)
    for i in got:
        ctx.check(got[i] == got[0], "%s: %s and %s come out differently" % (what, ways[0][0], ways[i][0]), a=str(got[0])[:600], b=str(got[i])[:600])
    ctx.check(got[0][0] == "value", "%s raises" % what, got=got[0])
    ctx.ev("ways of calling compared: " + what, len(ways))


def noise(ctx, c):
    """other objects with other values, made in between"""
    for _ in range(ctx.i(0, 2)):
        q = ctx.i(0, 5)
        if q == 0:
            sut.Ray(c, np.array([0.0, 1.0, 0.0]), wavelength=ctx.u(200, 900), order=ctx.pick([1, -1]), type="faerie_fire")
        elif q == 1:
            sut.Mirror(c, "rectangular_flat", np.array([0.0, 1.0, 0.0]), tangent=np.array([1.0, 0.0, 0.0]), h=1, w=2)
        elif q == 2:
            sut.Lens(c, shape="spherical", D=2.0, index=ctx.u(1, 3))
        elif q == 3:
            sut.Compound(sut.BinaryTree(sut.Sphere(c, R=1.0)), "refract", ctx.u(1, 3))
        elif q == 4:
            r = sut.Ray(c, np.array([0.0, 1.0, 0.0]))
            r.run(5.0, [sut.Mirror(c + 1.0, normal=np.array([0.0, 1.0, 0.0]), D=8.0)], 1)
        else:
            sut.go.image_rays(1.0, 3.0, 0.1, 2, 2, 2, "circle", 1.0)


def optics(ctx):
    """every way of making the same optic makes the same optic"""
    S = ctx.logu(0.5, 50)
    n = mul(scenes.rand_unit(ctx), ctx.logu(0.1, 10))
    u = unit(n)
    t = v3.rodrigues(v3.any_perp(u), u, ctx.u(0, 6.3))
    cc = mul(scenes.rand_unit(ctx), S * ctx.u(0, 5))
    c, N, T = np.array(cc), np.array(n), np.array(t)
    D, h, w, f = S * ctx.u(0.5, 3), S * ctx.u(0.5, 3), S * ctx.u(0.5, 3), S * ctx.u(1.6, 5)
    G, idx = ctx.u(50, 1500), ctx.u(1.1, 2.2)
    m = np.array(scenes.around(ctx, u, 0.9))
    M, Ln, C, Gr, De = sut.Mirror, sut.Lens, sut.Compound, sut.Grating, sut.Detector

    def tree():
        return sut.BinaryTree(sut.Sphere(c, R=D / 2))
    forms = {
        "a mirror": [
            lambda: M(c, normal=N, D=D), lambda: M(c, "circular_flat", N, D), lambda: M(D=D, normal=N, position=c),
            lambda: M(position=c, shape="circular_flat", normal=N, D=D, w=None, h=None, thickness=10, f=None, tangent=None, type="normal", dmd_normal=None)],
        "a rectangular mirror": [
            lambda: M(c, "rectangular_flat", N, h=h, w=w, tangent=T), lambda: M(c, "rectangular_flat", N, None, w, h, 10, None, T),
            lambda: M(position=c, tangent=T, shape="rectangular_flat", w=w, h=h, normal=N, type="normal")],
        "a concave mirror": [
            lambda: M(c, "circular_concave_spherical", N, D=D, f=f), lambda: M(c, "circular_concave_spherical", N, D, None, None, 10, f),
            lambda: M(shape="circular_concave_spherical", position=c, normal=N, D=D, f=f, type="normal")],
        "a ball mirror": [
            lambda: M(c, "circular_convex_spherical", D=D), lambda: M(c, "circular_convex_spherical", None, D),
            lambda: M(position=c, shape="circular_convex_spherical", normal=None, D=D, f=None, type="normal")],
        "a micromirror array": [
            lambda: M(c, normal=N, D=D, type="dmd", dmd_normal=m), lambda: M(c, "circular_flat", N, D, None, None, 10, None, None, "dmd", m)],
        "a ball lens": [
            lambda: Ln(c, shape="spherical", D=D), lambda: Ln(c, None, "spherical", D), lambda: Ln(c, shape="spherical", D=D, index=1.5, type="normal"),
            lambda: Ln(c, None, "spherical", D, None, None, None, None, "normal", 1.5)],
        "an ideal lens": [
            lambda: Ln(c, N, D=D, f=f, type="ideal"), lambda: Ln(c, N, "spherical_biconvex", D, None, None, f, None, "ideal"),
            lambda: Ln(position=c, normal=N, shape="spherical_biconvex", D=D, f=f, type="ideal", index=1.5)],
        "a collimating lens": [
            lambda: Ln(c, N, D=D, f=f, type="ideal_collimate"), lambda: Ln(c, N, "spherical_biconvex", D, None, None, f, None, "ideal_collimate", 1.5)],
        "a solid": [
            lambda: C(tree()), lambda: C(tree(), "reflect"), lambda: C(tree=tree(), surface_behavior="reflect", index=1.5)],
        "a glass solid": [
            lambda: C(tree(), "refract"), lambda: C(tree(), "refract", 1.5), lambda: C(tree(), index=1.5, surface_behavior="refract")],
        "a glass solid of some index": [
            lambda: C(tree(), "refract", idx), lambda: C(tree(), "refract", index=idx)],
        "a grating": [
            lambda: Gr(c, N, T, h=h, w=w, G=G), lambda: Gr(c, N, T, "rectangular_flat", w, h, G),
            lambda: Gr(G=G, tangent=T, normal=N, position=c, shape="rectangular_flat", h=h, w=w, order=None)],
        "a detector": [
            lambda: De(c, N, T, h=h, w=w), lambda: De(c, N, T, "rectangular_flat", w, h), lambda: De(position=c, normal=N, tangent=T, h=h, w=w)],
    }
    kind = ctx.pick(sorted(forms))
    ctx.desc = {"optic": kind, "c": cc, "n": n, "D": D, "h": h, "w": w}
    shots = []
    for _ in range(4):
        P = madd(cc, ctx.pick([-1, 1]) * S * ctx.u(0.3, 5), scenes.around(ctx, u, 0.3))
        A = madd(cc, S * ctx.u(0, 0.5), scenes.rand_unit(ctx))
        shots.append(Shot(P, unit(sub(A, P)), ctx.u(300, 900), ctx.pick([0, 0, 1, -1])))

    def behave(make):
        def f():
            noise(ctx, c)
            o = make()
            out = [repr(o), type(o).__name__]
            for s in shots:
                r = s.build()
                r.run(60 * S, optic_list=[o], max_interactions=6)
                out += [val(x) for x in result(r)]
            out.append(val(getattr(o, "hit_data", [])))
            for k in ("type", "shape", "index", "D", "h", "w", "f", "G", "surface_behavior"):
                if hasattr(o, k):
                    out.append((k, val(getattr(o, k))))
            if kind == "a ball lens" or "glass" in kind:
                out.append(val(o.get_index_at_point_if_inside(c)))
            return out
        return f
    agree(ctx, kind, [("form %d" % i, behave(m)) for i, m in enumerate(forms[kind])])
    ctx.seen(kind, quant(n), D)


def rays(ctx):
    """a ray made, run, reflected with as little as possible"""
    S = ctx.logu(0.5, 50)
    d = scenes.raw(ctx, scenes.rand_unit(ctx))
    P = mul(scenes.rand_unit(ctx), S)
    p, v = np.array(P), np.array(d)
    sc, shot = scenes.make_scene(ctx, scenes.ALL, n_hits=ctx.i(1, 4), decoys=ctx.i(0, 2), end=ctx.pick([None, "detector"]))
    ctx.desc = {"ray": (P, d), "scene": [e.desc() for e in sc.els]}
    md = scenes.budget(ctx, sc.L)
    q, w = np.array(shot.P), np.array(shot.d_raw)
    for els in (sc.els, [e for e in sc.els if e.kind != "detector"]):        # the runs below are without a limit
        for r in (shot.build(), sut.Ray(q, w)):
            r.run(13 * sc.L, optic_list=[e.build(sut) for e in els], max_interactions=200)
            if len(r.get_plot_repr()) > 150:
                raise Skip("a path that gets ever shorter")

    def state(r):
        return [repr(r), val(r.wavelength), val(r.order), r.type, bool(r.blocked)] + [val(x) for x in result(r)]

    def through(make):
        def f():
            noise(ctx, p)
            r = make()
            optics = sc.build(sut)
            r.run(md, optic_list=optics)
            return state(r) + [val(getattr(o, "hit_data", [])) for o in optics]
        return f
    R = sut.Ray
    agree(ctx, "a ray", [
        ("Ray(p, d)", through(lambda: R(q, w))), ("every argument by name", through(lambda: R(position=q, direction=w, wavelength=532, order=0,
                                                                                  print_trajectory=False, type="normal"))),
        ("every argument by position", through(lambda: R(q, w, 532, 0, False, "normal")))])
    wl = ctx.u(200, 900)
    agree(ctx, "a ray of some wavelength and order", [
        ("by position", through(lambda: R(q, w, wl, 1))), ("by name", through(lambda: R(q, w, order=1, wavelength=wl)))])

    def run(go):
        def f():
            noise(ctx, p)
            r = R(p, v)
            go(r)
            return state(r)
        return f
    x = S * ctx.u(0, 3)
    agree(ctx, "a run without optics", [
        ("run(D)", run(lambda r: r.run(x))), ("run(D, [])", run(lambda r: r.run(x, []))), ("run(D, [], inf)", run(lambda r: r.run(x, [], np.inf))),
        ("by name", run(lambda r: r.run(max_distance=x, optic_list=[], max_interactions=np.inf)))])
    agree(ctx, "a flight", [("fly(D)", run(lambda r: r.fly(x))), ("fly(distance=D)", run(lambda r: r.fly(distance=x)))])
    optics = [e for e in sc.els if e.kind != "detector"]

    def trace(go):
        def f():
            noise(ctx, p)
            r = R(q, w)
            go(r, [e.build(sut) for e in optics])
            return state(r)
        return f
    far = min(md, 12 * sc.L)
    agree(ctx, "a run without a limit", [
        ("run(D, optics)", trace(lambda r, o: r.run(far, o))), ("optic_list=", trace(lambda r, o: r.run(far, optic_list=o))),
        ("max_interactions=inf", trace(lambda r, o: r.run(far, o, np.inf))), ("a limit out of reach", trace(lambda r, o: r.run(far, o, max_interactions=10 ** 9)))])
    k = ctx.i(0, 3)
    agree(ctx, "a run with a limit", [
        ("by position", trace(lambda r, o: r.run(far, o, k))), ("by name", trace(lambda r, o: r.run(max_interactions=k, optic_list=o, max_distance=far)))])
    nn = np.array(scenes.raw(ctx, scenes.rand_unit(ctx)))
    agree(ctx, "a reflection", [
        ("reflect(normal=n)", run(lambda r: r.reflect(normal=nn))), ("by position", run(lambda r: r.reflect("specular_flat", nn))),
        ("by name", run(lambda r: r.reflect(reflect_type="specular_flat", normal=nn, optic=None, intersection_pt=None)))])
    u = unit(v3.tup(nn))
    if abs(dot(u, unit(d))) > 0.1:
        lens = sut.Lens(p, nn, D=S, f=S * 2, type="ideal")
        agree(ctx, "a thin-lens refraction", [
            ("refract(optic=, intersection_pt=)", run(lambda r: r.refract(optic=lens, intersection_pt=p))),
            ("by position", run(lambda r: r.refract("thin_lens", None, lens, p))),
            ("by name", run(lambda r: r.refract(refract_type="thin_lens", normal=None, optic=lens, intersection_pt=p, eta1=None, eta2=None)))])
    ctx.seen(quant(P), quant(d))


def probes(ctx):
    """probe rays: a thousand unless said otherwise"""
    R, c = ctx.logu(1, 100), np.array(mul(scenes.rand_unit(ctx), ctx.u(0, 50)))
    seed = ctx.i(0, 10 ** 6)

    def f(call):
        def g():
            np.random.seed(seed)
            return [(val(r.position), val(r.direction), r.type, val(r.wavelength), bool(r.blocked)) for r in call()]
        return g
    n = ctx.i(0, 30)
    agree(ctx, "some probe rays", [("by position", f(lambda: sut.add_faerie_fire_rays([], R, c, n))), ("by name", f(lambda: sut.add_faerie_fire_rays([], R, c, N=n)))])
    if ctx.idx % 8 == 0:
        agree(ctx, "probe rays", [("unsaid", f(lambda: sut.add_faerie_fire_rays([], R, c))), ("N=1000", f(lambda: sut.add_faerie_fire_rays([], R, c, N=1000))),
                                  ("by name", f(lambda: sut.add_faerie_fire_rays(Ray_list=[], FF_radius=R, FF_center=c)))])
    ctx.seen(R, n)


def patterns(ctx):
    """test patterns with some arguments left out"""
    y = ctx.pick([0, 0.0, ctx.u(-100, 100), ctx.i(-50, 50)])
    full = [("size", 10, ctx.u(0, 50)), ("angle", 0.2, ctx.u(0, 1)), ("x_res", 11, ctx.i(1, 6)), ("z_res", 11, ctx.i(1, 6)), ("angle_res", 3, ctx.i(1, 5)),
            ("pattern", "circle", "circle"), ("pattern_d", 5, ctx.u(0, 20))]
    given = {k: b for k, a, b in full if ctx.chance(0.4)}
    k0 = ctx.i(0, len(full))                              # the first few by position
    explicit = {k: given.get(k, a) for k, a, b in full}
    spoil = ctx.chance(0.5)

    def call(*a, **k):
        r = sut.go.image_rays(*a, **k)
        out = val([list(x) for x in r])
        if spoil:                                        # what the caller does with what it gets is its own business
            for x in r:
                if x and isinstance(x[0], np.ndarray):
                    x[0][:] = 77
                del x[:]
        return out
    ctx.desc = {"y": y, "given": given}
    agree(ctx, "image_rays", [
        ("what is given only", lambda: call(y, **given)), ("everything by name", lambda: call(y_center=y, **explicit)),
        ("some by position", lambda: call(y, *list(explicit.values())[:k0], **{k: v for k, v in given.items() if k not in list(explicit)[:k0]}))])
    ctx.seen(y, tuple(sorted(given)), k0)


def helpers(ctx):
    ge, go = sut.ge, sut.go
    q = ctx.pick(["colour", "smooth", "loglog", "nQ", "angle", "shape", "FD", "colour", "smooth"])
    ctx.desc = {"helper": q}
    if q == "colour":
        wl = ctx.pick([ctx.u(100, 1100), ctx.u(380, 750), float(ctx.i(380, 750))])
        agree(ctx, "wavelength_to_rgb", [("wavelength", lambda: ge.wavelength_to_rgb(wl)), ("all", lambda: ge.wavelength_to_rgb(wl, 0.8, 380, 750)),
                                         ("names", lambda: ge.wavelength_to_rgb(wavelength=wl, gamma=0.8, floor_wave=380, ceiling_wave=750)),
                                         ("gamma", lambda: ge.wavelength_to_rgb(wl, gamma=0.8)), ("floor", lambda: ge.wavelength_to_rgb(wl, floor_wave=380))])
    elif q == "smooth":
        win = 2 * ctx.i(2, 8) + 1
        order = ctx.i(1, min(4, win - 3))
        y = ctx.rng.normal(size=win + ctx.i(5, 60))
        dv = ctx.i(0, order)
        agree(ctx, "savitzky_golay", [("short", lambda: ge.savitzky_golay(y, win, order)), ("long", lambda: ge.savitzky_golay(y, win, order, 0, 1)),
                                      ("names", lambda: ge.savitzky_golay(y, window_size=win, order=order, deriv=0, rate=1))])
        agree(ctx, "savitzky_golay of a derivative", [("short", lambda: ge.savitzky_golay(y, win, order, dv)),
                                                      ("long", lambda: ge.savitzky_golay(y, win, order, deriv=dv, rate=1))])
    elif q == "loglog":
        x = np.cumsum(ctx.rng.uniform(0.1, 2, ctx.i(3, 12)))
        y = ctx.rng.uniform(0.1, 10, len(x))
        z = ctx.rng.uniform(x[0], x[-1], 5)
        agree(ctx, "log_interp1d", [("short", lambda: ge.log_interp1d(x, y)(z)), ("long", lambda: ge.log_interp1d(x, y, "linear")(z)),
                                    ("name", lambda: ge.log_interp1d(x, y, kind="linear")(z))])
    elif q == "nQ":
        T = ctx.logu(0.01, 1000)
        agree(ctx, "get_nQ", [("electron", lambda: ge.get_nQ(T)), ("its mass", lambda: ge.get_nQ(T, 9.10938215e-28)), ("name", lambda: ge.get_nQ(T, m=9.10938215e-28))])
    elif q == "FD":
        eta = ctx.u(-19, 14)
        if ctx.idx % 6 == 0:
            agree(ctx, "FD_int_num", [("short", lambda: ge.FD_int_num(eta, 0.5)), ("long", lambda: ge.FD_int_num(eta, 0.5, 1e-12, 600, "roman"))])
    elif q == "angle":
        a, b = np.array(scenes.rand_unit(ctx)), np.array(scenes.rand_unit(ctx))
        agree(ctx, "angle_between", [("short", lambda: go.angle_between(a, b)), ("long", lambda: go.angle_between(a, b, None)),
                                     ("name", lambda: go.angle_between(v1=a, v2=b, v_normal=None))])
        agree(ctx, "angle_between with a sense", [("position", lambda: go.angle_between(a, b, np.cross(b, a))), ("name", lambda: go.angle_between(a, b, v_normal=np.cross(b, a)))])
    else:
        c, n = np.array(mul(scenes.rand_unit(ctx), ctx.u(0, 5))), np.array(scenes.rand_unit(ctx))
        R = ctx.pick([ctx.logu(0.1, 10), float(ctx.i(1, 9)), ctx.i(1, 9)])
        ray = sut.Ray(c + 7 * np.array(scenes.rand_unit(ctx)) + 2.0, np.array(scenes.rand_unit(ctx)))
        ray.direction = (c - ray.position) / np.linalg.norm(c - ray.position)
        pts = [c + R * ctx.u(0, 2) * np.array(scenes.rand_unit(ctx)) for _ in range(4)]

        def ask(make):
            def f():
                s = make()
                return [list(s.test_intersect(ray)) if not isinstance(s, sut.Circle) else list(s.test_intersect(ray))[:2], val(s.R), val(s.D)] + \
                    [s.test_point(p) for p in pts if hasattr(s, "test_point")]
            return f
        agree(ctx, "a sphere", [("R=", ask(lambda: sut.Sphere(c, R=R))), ("D=", ask(lambda: sut.Sphere(c, D=2 * R))), ("both", ask(lambda: sut.Sphere(c, R=R, D=2 * R))),
                                ("position", ask(lambda: sut.Sphere(c, R)))])
        agree(ctx, "a cylinder", [("R=", ask(lambda: sut.InfiniteCylinder(c, n, R=R))), ("D=", ask(lambda: sut.InfiniteCylinder(c, n, D=2 * R))),
                                  ("both", ask(lambda: sut.InfiniteCylinder(c, n, R, 2 * R)))])
        agree(ctx, "a disc", [("R=", ask(lambda: sut.Circle(c, n, R=R))), ("D=", ask(lambda: sut.Circle(c, n, D=2 * R))), ("both", ask(lambda: sut.Circle(c, n, R, 2 * R)))])
    ctx.seen(q, ctx.idx)


def files(ctx):
    """files in sub-folders are left alone unless asked otherwise"""
    def f(call):
        root = tempfile.mkdtemp(prefix="mon-c37-")
        try:
            os.makedirs(os.path.join(root, "d", "e"))
            for p in ("a.txt", "b.log", "d/c.txt", "d/e/f.txt", "d/g.log"):
                open(os.path.join(root, p), "w").close()
            with Guard(root) as g, contextlib.redirect_stdout(io.StringIO()):
                call(root)
            ctx.check(not g.escaped, "something outside the folder was about to be removed", calls=g.escaped)
            return sorted(os.path.relpath(os.path.join(d, x), root) for d, _, fs in os.walk(root) for x in fs)
        finally:
            shutil.rmtree(root)
    d = sut.ge.delete_files_with_extension
    ext = ctx.pick([".txt", ".log"])
    agree(ctx, "delete_files_with_extension", [("short", lambda: f(lambda r: d(r, ext))), ("False", lambda: f(lambda r: d(r, ext, False))),
                                               ("name", lambda: f(lambda r: d(folder=r, extensionWithDot=ext, deleteInSubDirectories=False)))])
    agree(ctx, "delete_files_with_extension below", [("True", lambda: f(lambda r: d(r, ext, True))), ("name", lambda: f(lambda r: d(r, ext, deleteInSubDirectories=True)))])
    ctx.ev("folders compared")
    ctx.seen(ext, ctx.idx)


def drawing(ctx):
    """drawn without a view is drawn in three dimensions"""
    kind = ctx.pick(["mirror", "ideal", "concave", "ballmirror", "balllens", "grating", "detector"])
    el = scenes.MAKERS[kind](ctx, "free", (1.0, 2.0, 3.0), scenes.rand_unit(ctx), 5.0)
    ctx.desc = {"optic": el.desc()}

    def f(**k):
        fig, ax = axes3d(ctx2, (1.0, 2.0, 3.0), 20.0)
        el.build(sut).draw(ax, **k)
        fig.canvas.draw()
        out = []
        for a in list(ax.patches) + list(ax.collections) + list(ax.lines):
            out.append(type(a).__name__)
            for p in (a.get_paths() if hasattr(a, "get_paths") else [a.get_path()]):
                out.append(val(np.round(np.asarray(p.vertices, dtype=float), 9) + 0.0))
        ctx.check(bool(out), "nothing is drawn", view=k)
        return out

    class Fixed:
        def logu(self, a, b):
            return 1.2
    ctx2 = Fixed()
    agree(ctx, "draw", [("draw(ax)", lambda: f()), ("3d", lambda: f(view="3d")), ("xyz", lambda: f(view="xyz"))])
    ctx.ev("drawings compared")
    ctx.seen(kind, ctx.idx)


def long_run(ctx):
    """no limit means none: tens of thousands of interactions"""
    N = ctx.i(60000, 80000)
    gap = ctx.pick([1.0, 0.5, 2.0])
    z = np.array(scenes.rand_unit(ctx))
    o = [sut.Mirror(k * gap * z, normal=z, D=1) for k in (0, 1)]
    ray = sut.Ray(0.5 * gap * z, z)
    ctx.desc = {"normal": z, "gap": gap, "interactions": N}
    ray.run(gap * N, optic_list=o)
    n = len(ray.get_plot_repr())
    ctx.check(n == N + 2 or n == N + 1, "a run without a limit makes %d interactions of some %d" % (n - 2, N))
    ctx.ev("interactions of long runs without a limit", n)
    ctx.seen(N)


PROP = Prop(
    "C37",
    "every optic, ray, run, reflection, test pattern, shape and helper called with its optional arguments left out, written out, by position and by name, in "
    "random order, twice, with other objects made in between; what comes back, how rays then behave, what is recorded, drawn, removed or printed compared",
    [Family("optics", optics, 4000), Family("rays", rays, 2000), Family("probes", probes, 200), Family("patterns", patterns, 1500),
     Family("helpers", helpers, 3000), Family("files", files, 200), Family("drawing", drawing, 120),
     Family("long-run", long_run, 2, 8)],
    required=["interactions of long runs without a limit"] + ["ways of calling compared: " + k for k in (
        "a mirror", "a ball lens", "an ideal lens", "a solid", "a glass solid", "a grating", "a detector", "a ray", "a run without optics",
        "a run without a limit", "a reflection", "a thin-lens refraction", "probe rays", "image_rays", "wavelength_to_rgb", "savitzky_golay", "log_interp1d",
        "get_nQ", "FD_int_num", "angle_between", "delete_files_with_extension", "draw", "a sphere", "a cylinder", "a disc")],
    assumptions=["the defaults are those of the constructor and function signatures the scripts rely on"])
