"""C23 optics are drawn where they are."""
import math

import numpy as np

from ..core import Prop, Family, Skip
from ..common import *
from .. import sut, scenes, elements as E, v3
from ..v3 import *
from .c17 import snap, same


def axes3d(ctx, c, size):
    from matplotlib.figure import Figure
    from matplotlib.backends.backend_agg import FigureCanvasAgg
    from mpl_toolkits.mplot3d import Axes3D    # noqa: F401
    fig = Figure(figsize=(2, 2), dpi=30)
    FigureCanvasAgg(fig)
    ax = fig.add_subplot(projection="3d")
    ax.set_proj_type("ortho")
    k = [ctx.logu(0.7, 2) for _ in range(3)]
    for i, f in enumerate((ax.set_xlim3d, ax.set_ylim3d, ax.set_zlim3d)):
        f(c[i] - size * k[i], c[i] + size * k[i])
    return fig, ax


def outline(verts, codes):
    """points on the outline of a 2-D path, curves included"""
    if codes is None:
        return [tuple(p) for p in verts]
    out, i, cur = [], 0, None
    while i < len(verts):
        c = codes[i]
        if c in (1, 2):
            cur = verts[i]
            out.append(tuple(cur))
            i += 1
        elif c == 3:
            p0, p1, p2 = cur, verts[i], verts[i + 1]
            for t in (0.25, 0.5, 0.75, 1.0):
                out.append(tuple((1 - t) ** 2 * p0 + 2 * t * (1 - t) * p1 + t * t * p2))
            cur = verts[i + 1]
            i += 2
        elif c == 4:
            p0, p1, p2, p3 = cur, verts[i], verts[i + 1], verts[i + 2]
            for t in (0.25, 0.5, 0.75, 1.0):
                out.append(tuple((1 - t) ** 3 * p0 + 3 * t * (1 - t) ** 2 * p1 + 3 * t * t * (1 - t) * p2 + t ** 3 * p3))
            cur = verts[i + 2]
            i += 3
        else:
            i += 1
    return out


def drawn_points(ax):
    """projected outline points of everything that was added to the axes, as rendered"""
    pts = []
    n = 0
    for a in list(ax.patches) + list(ax.collections):
        n += 1
        paths = a.get_paths() if hasattr(a, "get_paths") else [a.get_path()]
        for p in paths:
            v = np.asarray(p.vertices, dtype=float)[:, :2]
            if not np.all(np.isfinite(v)):      # matplotlib fills polygons of a collection up with NaN
                good = np.all(np.isfinite(v), axis=1)
                v, codes = v[good], None
            else:
                codes = p.codes
            pts += outline(v, codes)
    return n, np.array(pts, dtype=float).reshape(-1, 2)


def look(ctx, fig, ax, view):
    ax.view_init(elev=view[0], azim=view[1])
    fig.canvas.draw()
    M = np.asarray(ax.get_proj(), dtype=float)
    return M[:2, :3] / M[3, 3], M[:2, 3] / M[3, 3]      # orthographic: the last row is (0, 0, 0, w)


def in_plane(A, b, P2, c, t1, t2):
    """back-projection of the projected points onto the plane through c spanned by t1, t2"""
    B = A @ np.array([t1, t2]).T
    return np.linalg.solve(B, (P2 - (A @ np.array(c) + b)).T).T


def edge_on(A, n):
    d = np.cross(A[0] / np.linalg.norm(A[0]), A[1] / np.linalg.norm(A[1]))
    return abs(float(np.dot(d / np.linalg.norm(d), n))) < 0.15


def optic(ctx):
    S = ctx.logu(1, 100) if ctx.chance(0.75) else ctx.logu(0.01, 1e4)
    kind = ctx.pick(["mirror round", "mirror rect", "concave", "ball mirror", "lens", "ball lens", "grating", "detector"])
    whole = ctx.chance(0.3)
    if whole:
        pos = tuple(float(ctx.i(-30, 30)) for _ in range(3))
        n_raw = ctx.pick(scenes.INT_NORMALS)
        ts = [t for t in scenes.INT_NORMALS if dot(t, n_raw) == 0]
        t_raw = ctx.pick(ts) if ts else v3.any_perp(unit(n_raw))
        st = ctx.pick(["int", "float"])
    else:
        pos = mul(scenes.rand_unit(ctx), S * ctx.u(0, 5))
        n0 = scenes.rand_unit(ctx)
        n_raw, t_raw, st = scenes.raw(ctx, n0), scenes.raw(ctx, scenes.tangent_for(ctx, n0)), "float"
    h, w, D = S * ctx.logu(0.3, 3), S * ctx.logu(0.3, 3), S * ctx.logu(0.3, 3)
    dmd = scenes.raw(ctx, scenes.around(ctx, unit(n_raw), 0.8)) if ctx.chance(0.3) else None
    if dmd is not None:
        st = "float"
    el = {"mirror round": lambda: E.RoundMirror(pos, n_raw, D, dmd, style=st),
          "mirror rect": lambda: E.RectMirror(pos, n_raw, t_raw, h, w, dmd, style=st),
          "concave": lambda: E.ConcaveMirror(pos, n_raw, D, D * ctx.u(0.6, 4), style=st),
          "ball mirror": lambda: E.BallMirror(pos, D, style=st),
          "lens": lambda: E.IdealLens(pos, n_raw, D, S, ctx.pick(["ideal", "ideal_collimate", "ideal_focus"]), style=st),
          "ball lens": lambda: E.BallLens(pos, D, 1.5, style=st),
          "grating": lambda: E.Grating(pos, n_raw, t_raw, h, w, 600, style=st),
          "detector": lambda: E.Detector(pos, n_raw, t_raw, h, w, style=st)}[kind]()
    o = el.build(sut)
    before = snap(o)
    ctx.desc = {"optic": el.desc()}
    if ctx.chance(0.3):                     # drawn in another figure before
        ofig, oax = axes3d(ctx, pos, S * 3)
        o.draw(oax)
        if ctx.chance(0.5):
            ofig.canvas.draw()
        ctx.ev("optics drawn in a second figure")
    fig, ax = axes3d(ctx, pos, S * 3)
    if ctx.chance(0.3):
        o.draw(ax)
    else:
        o.draw(ax, view=ctx.pick(["3d", "xyz"]))
    ctx.check(same(snap(o), before), "drawing an optic changed it", now=snap(o), was=before)
    checked = 0
    for _ in range(6):
        if checked == 2:
            break
        view = (ctx.u(-85, 85), ctx.u(-180, 180))
        if "ball" not in kind:
            # looking from direction v: skip edge-on views
            pass
        A, b = look(ctx, fig, ax, view)
        n_art, P = drawn_points(ax)
        ctx.check(n_art > 0 and len(P) > 0, "nothing was drawn", kind=kind)
        ctx.check(np.all(np.isfinite(P)), "the drawing is not finite")
        if "ball" in kind:
            R = D / 2
            rel = (P - (A @ np.array(pos) + b)).T
            off = np.linalg.pinv(A) @ rel                       # offset of each line of sight from the centre
            r = np.linalg.norm(off, axis=0)
            ctx.check(np.max(r) < R * 1.001, "the drawn ball is bigger than the ball, or elsewhere", farthest=float(np.max(r)), R=R)
            e1 = v3.tup(A[0] / np.linalg.norm(A[0]))
            u, s_, vt = np.linalg.svd(A)
            looks = [math.cos(k * math.pi / 4) * vt[0] + math.sin(k * math.pi / 4) * vt[1] for k in range(8)]
            for x in np.eye(3):                                 # as near as can be seen to each coordinate axis
                x = vt[:2].T @ (vt[:2] @ x)
                if np.linalg.norm(x) > 0.3:
                    looks += [x / np.linalg.norm(x), -x / np.linalg.norm(x)]
            for dvec in looks:
                ctx.check(float(np.max(dvec @ off)) > 0.985 * R, "the drawn ball does not reach the ball's outline", reach=float(np.max(dvec @ off)), R=R)
            checked += 1
            continue
        if edge_on(A, el.n):
            continue
        t1 = v3.any_perp(el.n) if not hasattr(el, "tan") else el.tan
        t2 = cross(el.n, t1)
        q = in_plane(A, b, P, pos, t1, t2)
        if hasattr(el, "tan"):
            hh, ww = el.h / 2, el.w / 2
            tol = 1e-6 * (1 + norm(pos) + S)
            corners = set()
            for x, y in q:
                on = (abs(abs(x) - hh) < tol and abs(y) < ww + tol) or (abs(abs(y) - ww) < tol and abs(x) < hh + tol)
                ctx.check(on, "a rectangular optic is not drawn as its rectangle (height along the tangent)", outline=q[:8], h=el.h, w=el.w)
                if abs(abs(x) - hh) < tol and abs(abs(y) - ww) < tol:
                    corners.add((x > 0, y > 0))
            ctx.check(len(corners) == 4, "a rectangular optic is drawn without all of its corners", outline=q[:8], h=el.h, w=el.w)
        else:
            r = np.hypot(q[:, 0], q[:, 1])
            ctx.check(np.all(np.abs(r - D / 2) < 0.002 * D / 2 + 1e-7 * norm(pos)), "a round optic is not drawn as its disc", radii=[float(np.min(r)), float(np.max(r))],
                      D=D)
            ang = np.sort(np.arctan2(q[:, 1], q[:, 0]))
            gap = float(np.max(np.diff(np.append(ang, ang[0] + 2 * math.pi))))
            ctx.check(gap < 0.5, "a part of a round optic's outline is missing", gap=gap)
        checked += 1
    if checked:
        ctx.ev("drawn in 3-D: " + kind, checked)
    ctx.seen(kind, quant(pos), quant(n_raw))
    # drawing does not disturb tracing
    ray = sut.Ray(np.array(madd(pos, -3 * S, unit(n_raw))), np.array(unit(n_raw)))
    ray.run(10 * S, optic_list=[o])
    r2 = sut.Ray(np.array(madd(pos, -3 * S, unit(n_raw))), np.array(unit(n_raw)))
    r2.run(10 * S, optic_list=[el.build(sut)])
    ctx.check(np.array_equal(ray.get_plot_repr(), r2.get_plot_repr()), "drawing an optic changes how it is traced")


def flat_views(ctx):
    """round mirrors as a marker in the tangential and sagittal views; what cannot be drawn there is refused"""
    from matplotlib.figure import Figure
    from matplotlib.backends.backend_agg import FigureCanvasAgg
    pos = tuple(ctx.u(-50, 50) for _ in range(3))
    n = scenes.rand_unit(ctx)
    t = scenes.tangent_for(ctx, n)
    fig = Figure(figsize=(1, 1), dpi=30)
    FigureCanvasAgg(fig)
    ax = fig.add_subplot()
    view = ctx.pick(["xy", "tangential", "xz", "sagittal"])
    m = E.RoundMirror(pos, n, 10.0).build(sut)
    ctx.desc = {"mirror": repr(m), "view": view}
    m.draw(ax, view=view)
    pts = [(float(x), float(y)) for ln in ax.lines for x, y in zip(np.atleast_1d(ln.get_xdata()), np.atleast_1d(ln.get_ydata()))]
    want = (pos[0], pos[1] if view in ("xy", "tangential") else pos[2])
    ctx.check(len(pts) == 1 and abs(pts[0][0] - want[0]) < 1e-9 and abs(pts[0][1] - want[1]) < 1e-9, "the marker is not at the mirror's position", got=pts,
              expected=want)
    bad = ctx.pick([E.RectMirror(pos, n, t, 3.0, 4.0), E.BallMirror(pos, 3.0), E.ConcaveMirror(pos, n, 3.0, 8.0)]).build(sut)
    try:
        bad.draw(ax, view=view)
        ctx.fail("a mirror that has no %s view was accepted" % view)
    except ValueError:
        pass
    fig.canvas.draw()
    ctx.ev("flat views")
    ctx.seen(view, quant(pos))


def equal_axes(ctx):
    fig, ax = axes3d(ctx, (0.0, 0.0, 0.0), 1.0)
    lim = []
    for f in (ax.set_xlim3d, ax.set_ylim3d, ax.set_zlim3d):
        c, r = ctx.u(-100, 100), ctx.logu(0.01, 100)
        if ctx.chance(0.2):
            c, r = float(ctx.i(-9, 9)), float(ctx.i(1, 9))
        if ctx.chance(0.25):
            f(c + r, c - r)                          # an axis that runs backwards
            ctx.ev("inverted axes equalised")
        else:
            f(c - r, c + r)
        lim.append((c, r))
    ctx.desc = {"limits": lim}
    for _ in range(2):
        sut.ge.set_axes_equal(ax)
        R = max(r for _, r in lim)
        for (c, r), g in zip(lim, (ax.get_xlim3d, ax.get_ylim3d, ax.get_zlim3d)):
            lo, hi = (float(x) for x in g())
            ctx.check(abs((lo + hi) / 2 - c) < 1e-9 * (1 + abs(c) + R) and abs(abs(hi - lo) / 2 - R) < 1e-9 * (1 + abs(c) + R),
                      "equal axes must keep every centre and take the longest range", got=[lo, hi], centre=c, half_range=R)
    ctx.ev("axes equalised")
    ctx.seen(quant([r for _, r in lim]))


def patches(ctx):
    """a flat patch of matplotlib's turned into one in space: the same shape, turned about the origin, lifted by z, moved by delta"""
    from matplotlib import patches as mp
    S = ctx.logu(0.5, 50)
    c = (ctx.u(-2, 2) * S, ctx.u(-2, 2) * S) if ctx.chance(0.7) else (0.0, 0.0)
    kind = ctx.pick(["circle", "rectangle", "ellipse", "polygon"])
    a, b_ = S * ctx.u(0.3, 2), S * ctx.u(0.3, 2)

    def make():
        return {"circle": lambda: mp.Circle(c, a, fill=False), "rectangle": lambda: mp.Rectangle(c, a, b_, angle=33.0),
                "ellipse": lambda: mp.Ellipse(c, a, b_, angle=20.0), "polygon": lambda: mp.Polygon([c, (c[0] + a, c[1]), (c[0], c[1] + b_)])}[kind]()
    q = ctx.u()
    if q < 0.35:
        say = ctx.pick("xyz")
        n = {"x": (1.0, 0.0, 0.0), "y": (0.0, 1.0, 0.0), "z": (0.0, 0.0, 1.0)}[say]
    elif q < 0.6:
        n = tuple(float(x) for x in ctx.pick(scenes.INT_NORMALS))
        say = np.array([int(x) for x in n]) if ctx.chance(0.5) else n
    else:
        n = scenes.raw(ctx, scenes.rand_unit(ctx))
        say = np.array(n)
    n = unit(n)
    z = ctx.pick([None, 0, ctx.u(-3, 3) * S])
    deltas = [mul(scenes.rand_unit(ctx), S * ctx.u(0, 5)) for _ in range(ctx.i(0, 2))]
    ctx.desc = {"patch": kind, "centre": c, "size": [a, b_], "normal": str(say), "z": z, "deltas": deltas}
    o = (0.0, 0.0, 0.0 if z is None else float(z))
    for t in deltas:
        o = add(o, t)
    fig, ax = axes3d(ctx, o, S * 6)
    ref = make()
    flat = np.array(outline(np.asarray(ref.get_patch_transform().transform_path(ref.get_path()).vertices), ref.get_path().codes))
    p = make()
    ax.add_patch(p)
    kw = {}
    if z is not None:
        kw["z"] = z
    if not (isinstance(say, str) and say == "z" and ctx.chance(0.5)):
        kw["normal"] = say
    sut.go.pathpatch_2d_to_3d(p, **kw)
    for t in deltas:
        sut.go.pathpatch_translate(p, t if ctx.chance(0.5) else np.array(t))
    for _ in range(6):
        A, b = look(ctx, fig, ax, (ctx.u(-85, 85), ctx.u(-180, 180)))
        if not edge_on(A, n):
            break
    else:
        return
    k, P = drawn_points(ax)
    ctx.check(k == 1 and len(P) == len(flat), "a patch is drawn with other points than its own", got=len(P), expected=len(flat))
    t1 = v3.any_perp(n)
    Q = in_plane(A, b, P, o, t1, cross(n, t1))
    tol = 1e-6 * (1 + norm(o) + S)
    ctx.check(np.all(np.abs(np.hypot(Q[:, 0], Q[:, 1]) - np.hypot(flat[:, 0], flat[:, 1])) < tol), "a patch in space is not turned about the origin and "
              "moved: distances from there are others", got=Q[:6], flat=flat[:6])
    i, j = [np.array([ctx.i(0, len(Q) - 1) for _ in range(12)]) for _ in "ab"]
    ctx.check(np.all(np.abs(np.linalg.norm(Q[i] - Q[j], axis=1) - np.linalg.norm(flat[i] - flat[j], axis=1)) < 3 * tol), "a patch in space has another shape")
    area = [float(np.sum(X[:-1, 0] * X[1:, 1] - X[1:, 0] * X[:-1, 1])) for X in (Q, flat)]
    ctx.check(abs(area[0] - area[1]) < 1e-3 * S * S + tol * S * 100, "a patch in space is mirrored, seen from where its normal points", area=area)
    ctx.ev("patches put in space")
    ctx.seen(kind, quant(n), len(deltas), z is None)


def whole_scene(ctx):
    """a scene with its rays renders, and the plotted path is the path"""
    sc, shot = scenes.make_scene(ctx, scenes.ALL + ["detector"], orders=(0, 1), n_hits=ctx.i(1, 4), decoys=ctx.i(0, 4))
    fig, ax = axes3d(ctx, (0.0, 0.0, 0.0), sc.L)
    optics = sc.build(sut)
    ctx.desc = {"scene": [e.desc() for e in sc.els], "ray": shot.desc()}
    for o in optics:
        o.draw(ax, view="3d")
    ray = shot.build()
    ray.run(2 * sc.L, optic_list=optics, max_interactions=20)
    V = ray.get_plot_repr()
    ctx.check(isinstance(V, np.ndarray) and V.ndim == 2 and V.shape[1] == 3 and V.dtype.kind in "fi", "the plotted path is not an N x 3 array", got=repr(V)[:200])
    ln, = ax.plot(V[:, 0], V[:, 1], V[:, 2])
    sut.ge.set_axes_equal(ax)
    fig.canvas.draw()
    ctx.ev("whole scenes rendered")
    ctx.seen(tuple(e.kind for e in sc.els))


def shown(ctx):
    """show_plot shows the figure it is asked for, or else the one at hand, and leaves the others open"""
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    plt.close("all")
    ids = [ctx.pick([0, 1, 2, 3, 7, 40, "a", "beam path"]) for _ in range(ctx.i(1, 4))]
    for k in ids:
        plt.figure(k)
    name = lambda: plt.gcf().get_label() if isinstance(ask, str) else plt.gcf().number
    seen, real = [], plt.show
    ask = ctx.pick(ids + [None, 5])
    want = name()
    ctx.desc = {"figures": ids, "asked for": ask}
    before = set(plt.get_fignums())
    plt.show = lambda *a, **k: seen.append(name())
    try:
        sut.ge.show_plot() if ask is None and ctx.chance(0.5) else sut.ge.show_plot(ask)
        want = want if ask is None else ask
        ctx.check(seen == [want], "not the figure that was asked for is shown, once", shown=seen, expected=want)
        ctx.check(before <= set(plt.get_fignums()), "showing a figure closed others")
    finally:
        plt.show = real
        plt.close("all")
    ctx.ev("figures shown")
    ctx.seen(tuple(map(str, ids)), str(ask))


PROP = Prop(
    "C23",
    "single optics of every drawable kind in random and whole-number poses rendered on real 3-D axes (orthographic, two random views each): the "
    "projected outline is carried back onto the optic's plane and compared with its disc or rectangle; balls against their silhouettes; flat "
    "views, axis equalising, flat patches put in space, and whole scenes",
    [Family("optics", optic, 500, 6000), Family("flat-views", flat_views, 250, 2000), Family("equal-axes", equal_axes, 250, 2000),
     Family("patches", patches, 400, 4000), Family("scenes", whole_scene, 120, 1000),
     Family("shown", shown, 150, 1000)],
    required=["optics drawn in a second figure"] + ["drawn in 3-D: " + k for k in ("mirror round", "mirror rect", "concave", "ball mirror", "lens", "ball lens", "grating", "detector")] +
    ["flat views", "inverted axes equalised", "axes equalised", "patches put in space", "whole scenes rendered", "figures shown"],
    assumptions=["rendered with matplotlib's Agg backend; a concave mirror is drawn as the disc at its vertex; CSG solids are not drawn"])
