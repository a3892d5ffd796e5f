"""C36 tracing is silent, free of numerical faults, and leaves the process as it was."""
import contextlib
import io
import json
import os
import random
import subprocess
import sys
import warnings

import numpy as np
import scipy.interpolate      # noqa: F401  (imports reach outside: have them done before anything is watched)
import scipy.special          # noqa: F401

from ..core import Prop, Family, Skip, REPO
from ..common import *
from .. import sut, scenes, elements as E, v3, csg
from ..v3 import *
from .c17 import result, equal

# audit events that mean the process reaches outside itself
OUTSIDE = ("socket.", "subprocess.", "os.system", "os.exec", "os.spawn", "os.posix_spawn", "os.fork", "os.kill", "os.remove", "os.rename", "os.mkdir",
           "os.rmdir", "os.chmod", "os.chown", "os.link", "os.symlink", "os.truncate", "os.utime", "os.putenv", "os.unsetenv", "os.chdir", "os.startfile",
           "shutil.", "tempfile.", "urllib.", "http.", "ftplib.", "smtplib.", "winreg.", "ctypes.dlopen", "time.sleep", "signal.")
_audit = {"on": False, "seen": []}


def _hook(event, args):
    if _audit["on"]:
        if event == "open":
            p, mode = args[0], args[1]
            if isinstance(p, (str, bytes)) and (mode is None or not set("wax+") & set(str(mode))) and str(p).endswith((".py", ".pyc", ".so")):
                return                          # an import
            if isinstance(p, int):
                return
            _audit["seen"].append("open %r %r" % (p, mode))
        elif event.startswith(OUTSIDE):
            _audit["seen"].append(event)


def arm():
    if not _audit.get("armed"):
        sys.addaudithook(_hook)
        _audit["armed"] = True


def numpy_generator():
    name, key, *rest = np.random.get_state()
    return (name, hash(key.tobytes())) + tuple(rest)


def process_state():
    po = np.get_printoptions()
    return {
        "numpy's random generator": numpy_generator(),
        "random's generator": hash(random.getstate()),
        "numpy's print options": repr(sorted(po.items(), key=lambda kv: kv[0])),
        "numpy's error settings": repr(sorted(np.geterr().items())),
        "the working directory": os.getcwd(),
        "the environment": hash(frozenset(os.environ.items())),
        "the recursion limit": sys.getrecursionlimit(),
        "the search path": tuple(sys.path),
        "the excepthook": sys.excepthook,
    }


class watched:
    """runs the body with floating-point faults and warnings as errors, watching output, audit events and process state"""

    def __init__(self, ctx, what, random_ok=False):
        self.ctx, self.what, self.random_ok = ctx, what, random_ok

    def __enter__(self):
        arm()
        self.before = process_state()
        self.out, self.err = io.StringIO(), io.StringIO()
        self.stack = contextlib.ExitStack()
        self.stack.enter_context(warnings.catch_warnings())
        warnings.simplefilter("error")
        for w in (DeprecationWarning, PendingDeprecationWarning, FutureWarning, ResourceWarning, ImportWarning):
            warnings.simplefilter("ignore", w)
        self.stack.enter_context(contextlib.redirect_stdout(self.out))
        self.stack.enter_context(contextlib.redirect_stderr(self.err))
        self.old = np.seterr(divide="raise", over="raise", invalid="raise", under="ignore")
        self.inside = repr(sorted(np.geterr().items()))
        self.filters = list(warnings.filters)
        _audit["seen"] = []
        _audit["on"] = True
        return self

    def __exit__(self, et, ev, tb):
        _audit["on"] = False
        still = repr(sorted(np.geterr().items())) == self.inside
        filters = list(warnings.filters) == self.filters
        np.seterr(**self.old)
        self.stack.close()
        ctx, what = self.ctx, self.what
        if et is not None and issubclass(et, FloatingPointError):
            ctx.fail("%s: a floating-point fault (%s)" % (what, ev))
        if et is not None and issubclass(et, Warning):
            ctx.fail("%s: a warning (%s: %s)" % (what, et.__name__, ev))
        if et is not None:
            return False
        ctx.check(still, "%s changed numpy's error settings" % what)
        ctx.check(filters, "%s changed which warnings the process shows" % what)
        ctx.check(not self.out.getvalue() and not self.err.getvalue(), "%s printed something" % what, out=self.out.getvalue()[:300],
                  err=self.err.getvalue()[:300])
        ctx.check(not _audit["seen"], "%s reached outside the process" % what, events=_audit["seen"][:5])
        now = process_state()
        for k, v in self.before.items():
            if k == "numpy's random generator" and self.random_ok:
                continue
            ctx.check(now[k] == v, "%s changed %s" % (what, k), before=str(v)[:200], after=str(now[k])[:200])
        return False


def tracing(ctx):
    sc, shot = scenes.make_scene(ctx, scenes.ALL + ["inert"], orders=(0, 1, -1, 2), end=ctx.pick([None, "detector"]), n_hits=ctx.i(1, 6), decoys=ctx.i(0, 3))
    shots = [shot] + scenes.extra_shots(ctx, sc, shot, 4)
    ctx.desc = {"scene": [e.desc() for e in sc.els], "rays": [s.desc() for s in shots]}
    md = scenes.budget(ctx, sc.L)
    ref = []
    for s in shots:
        r = s.build()
        r.run(md, optic_list=sc.build(sut), max_interactions=40)
        ref.append(result(r))
    with watched(ctx, "making and tracing a scene"):
        optics = sc.build(sut)
        got = []
        for s in shots:
            r = s.build()
            r.run(md, optic_list=optics, max_interactions=40)
            got.append(result(r))
            repr(r), [repr(o) for o in optics]
    for g, a in zip(got, ref):
        ctx.check(equal(g, a), "a caller's numpy error settings change the path of a ray", strict=g[0], usual=a[0])
    ctx.ev("rays traced under watch", len(shots))
    ctx.ev("surfaces met under watch", sum(len(a[0]) - 2 for a in ref if len(a[0]) > 2))
    ctx.seen(quant(shot.d), tuple(len(a[0]) for a in ref))


def corners(ctx):
    """the exact special cases: rays through centres, along axes, in planes, tangents, opposite vectors, whole numbers"""
    S = float(ctx.i(1, 20))
    st = ctx.pick(["int", "float"])
    c = tuple(float(ctx.i(-20, 20)) for _ in range(3))
    e = [(1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (0.0, 0.0, 1.0)]
    perm = [int(i) for i in ctx.rng.permutation(3)]
    a, b, n = e[perm[0]], mul(e[perm[1]], ctx.pick([1.0, -1.0])), mul(e[perm[2]], ctx.pick([1.0, -1.0]))
    A = lambda v: E.arr(v, st)
    kind = ctx.pick(["mirror", "rect", "concave", "ballmirror", "balllens", "ideal", "collimate", "focus", "grating", "detector", "sphere", "cylinder",
                     "lens-solid"])
    def wedge():
        t = sut.BinaryTree("intersect")
        t.insertLeft(sut.Sphere(A(c), R=2 * S))
        t.insertRight(sut.Sphere(A(madd(c, S, n)), R=2 * S))
        return sut.Compound(t, "refract", 1.5)
    make = {"mirror": lambda: sut.Mirror(A(c), normal=A(n), D=4 * S), "rect": lambda: sut.Mirror(A(c), "rectangular_flat", A(n), h=4 * S, w=4 * S, tangent=A(a)),
            "concave": lambda: sut.Mirror(A(c), "circular_concave_spherical", A(n), D=2 * S, f=2 * S),
            "ballmirror": lambda: sut.Mirror(A(c), "circular_convex_spherical", D=4 * S),
            "balllens": lambda: sut.Lens(A(c), shape="spherical", D=4 * S, index=ctx.pick([1.0, 1.5, 2.0])),
            "ideal": lambda: sut.Lens(A(c), A(n), D=8 * S, f=2 * S, type="ideal"),
            "collimate": lambda: sut.Lens(A(c), A(n), D=8 * S, f=2 * S, type="ideal_collimate"),
            "focus": lambda: sut.Lens(A(c), A(n), D=8 * S, f=2 * S, type="ideal_focus"),
            "grating": lambda: sut.Grating(A(c), A(n), A(a), h=4 * S, w=4 * S, G=ctx.pick([0, 300, 1000])),
            "detector": lambda: sut.Detector(A(c), A(n), A(a), h=4 * S, w=4 * S),
            "sphere": lambda: sut.Compound(sut.BinaryTree(sut.Sphere(A(c), R=2 * S)), ctx.pick(["refract", "reflect"])),
            "cylinder": lambda: sut.Compound(sut.BinaryTree(sut.InfiniteCylinder(A(c), A(n), R=2 * S)), ctx.pick(["refract", "reflect"])),
            "lens-solid": wedge}[kind]
    flat = kind in ("mirror", "rect", "ideal", "collimate", "focus", "grating", "detector")
    what = ctx.pick(["on axis", "off axis", "diagonal", "in plane", "past", "away", "towards centre", "edge-on", "at rest on it"])
    side = ctx.pick([1.0, -1.0])
    P, d = {"on axis": (madd(c, 8 * S * side, n), mul(n, -side)),
            "off axis": (madd(madd(c, 8 * S * side, n), S, a), mul(n, -side)),
            "diagonal": (madd(madd(c, 8 * S * side, n), 8 * S, a), unit(sub(mul(n, -side), a))),
            "in plane": (madd(c, 8 * S, a), neg(a)),
            "past": (madd(madd(c, 8 * S, n), 8 * S, a), n),
            "away": (madd(c, 8 * S, n), n),
            "towards centre": (madd(c, 8 * S, b), neg(b)),
            "edge-on": (madd(madd(c, 8 * S, b), S, n), neg(b)),
            "at rest on it": (c if flat else madd(c, 2 * S, n), mul(n, side))}[what]
    ctx.desc = {"kind": kind, "what": what, "c": c, "n": n, "S": S}
    if kind == "cylinder" and abs(dot(d, n)) > 0.999 and n != (0.0, 0.0, 1.0):
        raise Skip("along a cylinder's axis")   # the crossings are rounding residue, see C12's known findings
    with watched(ctx, "a ray %s through a %s" % (what, kind)):
        o = make()
        r = sut.Ray(A(P), A(d) if what != "diagonal" else E.arr(d, "float"), order=ctx.pick([0, 1, -1]))
        r.run(100 * S, optic_list=[o], max_interactions=10)
        V = r.get_plot_repr()
    ctx.check(np.all(np.isfinite(np.asarray(V, dtype=float))), "a path is not finite", path=V)
    ctx.ev("special rays: " + what)
    ctx.ev("special rays at: " + kind)
    ctx.seen(kind, what, perm, S)


def helpers(ctx):
    """vector helpers, matrices, point questions, trees, colours, test patterns"""
    u = ctx.pick([scenes.rand_unit(ctx), ctx.pick(scenes.INT_NORMALS)])
    v = ctx.pick([scenes.rand_unit(ctx), u, neg(u), mul(u, 3.0), ctx.pick(scenes.INT_NORMALS), v3.any_perp(unit(u))])
    U, V = np.array(u, dtype=float) * ctx.logu(1e-3, 1e3), np.array(v, dtype=float) * ctx.logu(1e-3, 1e3)
    th = ctx.pick([0, math.pi, -math.pi / 2, ctx.u(-10, 10), 100])
    go, ge = sut.go, sut.ge
    tree = csg.any_tree(ctx, (0.0, 0.0, 0.0), ctx.logu(0.5, 20), ctx.i(0, 3))
    rv = v3.unit(u)
    q = np.array(mul(scenes.rand_unit(ctx), ctx.logu(0.1, 30)))
    x = ctx.pick([0, 0.0, 1, -1, 10, 1e-7, 123456.789, ctx.u(-1e6, 1e6), ctx.i(-1000, 1000)])
    with watched(ctx, "asking the helpers"):
        go.unit_vector(U)
        go.angle_between(U, V)
        n = np.cross(U, V)
        if np.linalg.norm(n) > 1e-9 * np.linalg.norm(U) * np.linalg.norm(V):
            go.angle_between(U, V, n)
        go.distance_between(U, V)
        go.rotation_matrix_axis_angle(U, th)
        go.rotation_matrix2(U, V)
        go.rotation_matrix4(U, V)
        go.rotation_matrix(U / np.linalg.norm(U), V / np.linalg.norm(V))
        go.scaling_matrix4(V)
        go.translation_matrix4(U)
        go.project_onto_plane(U, V)
        o, d, w = go.image_rays(x, size=ctx.pick([0, 10, 3.5]), angle=ctx.pick([0, 0.2]), x_res=ctx.i(1, 5), z_res=ctx.i(1, 5), angle_res=ctx.i(1, 4))[:3]
        ge.to_precision(x, ctx.i(1, 8))
        ge.wavelength_to_rgb(ctx.pick([200, 380, 440, 490, 510, 580, 645, 750, 1100, ctx.u(100, 1200)]))
        ge.find_nearest(np.array([1.0, 2.0, 5.0]), x)
        ge.savitzky_golay(np.arange(20.0) ** 2, 5, 2)
        ge.wavelength_nm_to_energy_eV(500)
        ge.energy_eV_to_wavelength_nm(2.5)
        k = ctx.pick([1, 3, 9, 10, 40, 2000] if ctx.chance(0.05) else [1, 3, 9, 10, 40])
        table = np.array([ctx.u(-1e3, 1e3) for _ in range(k)])
        ge.prism10widetextarray(table, 2, 1, 4, ".3f")
        ge.nparray2spacedstring(table, " " * ctx.i(0, 3), ".3f", " ", 60)
        ge.movingAverageFast(table, min(3, k))
        ge.log_interp1d(np.array([1.0, 10.0, 40.0]), np.array([2.0, 3.0, 0.5]))(np.array([2.0, 5.0]))
        ge.sackurTetrode(1e14, 1e-23, 1.0, ctx.logu(1e-3, 1e3))
        ge.FD_int_approx(ctx.u(-20, 40), 0.5)
        if ctx.chance(0.05):
            ge.FD_int_num(ctx.u(-25, 25), 0.5)
        s, cyl = sut.Sphere(U, R=ctx.logu(0.1, 10)), sut.InfiniteCylinder(U, V, R=ctx.logu(0.1, 10))
        for p in (U, V, np.zeros(3)):
            s.test_point(p), cyl.test_point(p)
        shapes = [s, cyl, sut.Plane(U, V), sut.Circle(U, V, R=2.0), sut.Rectangle(U, np.array(rv), np.array(v3.any_perp(rv)), h=1.0, w=2.0)]
        for o in shapes:
            repr(o), str(o)
        built = E.build_tree(tree, sut)
        go.postOrderEval(built)
        go.test_tree_point(built, q)
        solid = sut.Compound(built, "refract", 1.4)
        repr(solid)
        sut.get_index_at_point([solid], q)
    ctx.ev("helpers asked under watch")
    ctx.ev("shapes and trees printed and asked under watch", len(shapes) + 1)
    ctx.seen(quant(u), quant(v), th, x)


def probes(ctx):
    """probe rays draw from numpy's generator and from nothing else"""
    R = ctx.logu(1, 100)
    seeds = [ctx.i(0, 2 ** 31 - 1) for _ in range(2)]
    drawn = []
    for k in seeds:                                  # the generator goes on from where its seed put it
        np.random.seed(k)
        a = sut.add_faerie_fire_rays([], R, np.zeros(3), N=3)
        drawn.append((np.random.random(), [v3.tup(r.direction) for r in a]))
    if seeds[0] != seeds[1]:
        ctx.check(drawn[0][0] != drawn[1][0], "sending probe rays puts numpy's generator where it always puts it, whatever its seed was", seeds=seeds)
        ctx.ev("generators compared after probe rays")
    with watched(ctx, "sending probe rays", random_ok=True):
        lst = sut.add_faerie_fire_rays([], R, np.array(mul(scenes.rand_unit(ctx), R)), N=20)
        o = sut.Compound(sut.BinaryTree(sut.Sphere(np.zeros(3), R=R / 2)))
        for r in lst:
            r.run(3 * R, optic_list=[o])
    ctx.ev("probe rays under watch", len(lst))
    ctx.seen(R)


IMPORT = r"""
import sys, os, builtins, copy, decimal, gc, json, locale, logging, optparse, random, signal, threading, time, traceback, warnings
import numpy as np, matplotlib, matplotlib.pyplot, matplotlib.patches, matplotlib.colors, matplotlib.animation
import mpl_toolkits.mplot3d.art3d, scipy, scipy.interpolate, scipy.special, scipy.integrate, scipy.optimize, scipy.constants, scipy.signal
def state():
    st = np.random.get_state()
    out = {"numpy's error settings": sorted(np.geterr().items()), "numpy's print options": sorted((k, repr(v)) for k, v in np.get_printoptions().items()),
           "numpy's random generator": [hash(st[1].tobytes()), st[2], st[3]], "random's generator": hash(random.getstate()),
           "the working directory": os.getcwd(), "the environment": sorted(os.environ.items()), "the recursion limit": sys.getrecursionlimit(),
           "the search path": list(sys.path), "the excepthook": repr(sys.excepthook), "the displayhook": repr(sys.displayhook),
           "which warnings are shown": [repr(f) for f in warnings.filters], "the locale": locale.setlocale(locale.LC_ALL),
           "how Ctrl-C is handled": repr(signal.getsignal(signal.SIGINT)), "decimal's context": repr(decimal.getcontext()),
           "the garbage collector": [gc.isenabled(), list(gc.get_threshold())], "the threads": threading.active_count(),
           "the thread switch interval": sys.getswitchinterval(), "the root logger": [repr(logging.root.handlers), logging.root.level],
           "the file mode mask": os.umask(0o22), "matplotlib's settings": sorted((k, repr(v)) for k, v in dict.items(matplotlib.rcParams)),
           "matplotlib's figures": matplotlib.pyplot.get_fignums()}
    for m in (builtins, np, np.linalg, np.random, __import__("math"), time, os, random):
        out["the functions of " + m.__name__] = sorted((k, id(v)) for k, v in vars(m).items() if callable(v))
    os.umask(0o22)
    return json.loads(json.dumps(out, default=repr))
sys.path.insert(0, sys.argv[1])
state()
before = state()
again = state()
__import__(sys.argv[2])
after = state()
print(json.dumps([[k, str(before[k])[:300], str(after[k])[:300]] for k in before if before[k] == again[k] and after[k] != before[k]]))
"""


def imports(ctx):
    """importing the library prints nothing and leaves every process-wide setting alone"""
    name = ("optics3d", "general_optics", "general", "Shapes.shapes")[ctx.idx % 4]
    ctx.desc = {"module": name}
    p = subprocess.run([sys.executable, "-W", "ignore", "-c", IMPORT, REPO, name], capture_output=True, text=True, timeout=120,
                       env=dict(os.environ, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1"))
    ctx.check(p.returncode == 0, "the module %s cannot be imported" % name, err=p.stderr[-600:])
    lines = p.stdout.strip().split("\n")
    ctx.check(len(lines) == 1, "importing %s prints something" % name, out=p.stdout[:300])
    changed = json.loads(lines[-1])
    ctx.check(not changed, "importing %s changes %s" % (name, ", ".join(c[0] for c in changed)), changes=changed)
    ctx.ev("modules imported in a fresh process")
    ctx.seen(name)


def drawn(ctx):
    """drawing optics changes the axes they are drawn in and nothing else"""
    import matplotlib
    matplotlib.use("Agg")
    from matplotlib.figure import Figure
    import matplotlib.pyplot as plt
    sc, shot = scenes.make_scene(ctx, scenes.ALL + ["inert"], n_hits=ctx.i(1, 5))
    optics = sc.build(sut)
    ctx.desc = {"scene": [e.desc() for e in sc.els]}
    ax = Figure().add_subplot(111, projection="3d")
    rc = lambda: sorted((k, repr(v)) for k, v in dict.items(matplotlib.rcParams))
    before, rb, fb, filters = process_state(), rc(), plt.get_fignums(), list(warnings.filters)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        for o in optics:
            o.draw(ax)
    now = process_state()
    for k, v in before.items():
        ctx.check(now[k] == v, "drawing changed %s" % k, before=str(v)[:200], after=str(now[k])[:200])
    ctx.check(rc() == rb, "drawing changed matplotlib's settings")
    ctx.check(plt.get_fignums() == fb, "drawing opened or closed figures")
    ctx.check(list(warnings.filters) == filters, "drawing changed which warnings the process shows")
    ctx.check(not out.getvalue(), "drawing printed something", out=out.getvalue()[:300])
    ctx.ev("optics drawn under watch", len(optics))
    ctx.seen(len(optics), quant(shot.d))


PROP = Prop(
    "C36",
    "scenes of every optic built, traced, printed and asked with numpy's division, overflow and invalid-operation faults raised, warnings as "
    "errors, stdout and stderr captured, the interpreter's audit events watched, and the process-wide settings compared before and after; "
    "exact special rays (centres, axes, in planes, edge-on, at rest on a surface) at whole-number scenes; helpers on parallel, "
    "opposite and whole-number vectors",
    [Family("tracing", tracing, 4000), Family("corners", corners, 6000), Family("helpers", helpers, 1500), Family("probes", probes, 300),
     Family("imports", imports, 4, 4), Family("drawn", drawn, 150)],
    required=["rays traced under watch", "surfaces met under watch", "helpers asked under watch", "probe rays under watch", "generators compared after probe rays", "modules imported in a fresh process", "optics drawn under watch"] +
    ["special rays: " + k for k in ("on axis", "off axis", "diagonal", "in plane", "past", "away", "towards centre", "edge-on", "at rest on it")],
    assumptions=["underflow is no fault", "reading .py, .pyc and .so files (imports) is not counted as reaching outside"])
