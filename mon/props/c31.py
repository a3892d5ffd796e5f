"""C31 the example scripts: each runs to the end, and every ray in them obeys the laws."""
import contextlib
import glob
import inspect
import io
import os
import runpy
import shutil
import sys
import tempfile

import numpy as np

from .. import sut, elements as E
from ..core import Prop, Family, REPO
from ..common import RAY_ASSUMPTIONS
from ..trace import run_monitored, Shot, vec3
from ..v3 import dist, norm

SCRIPTS = sorted(os.path.basename(p) for p in glob.glob(os.path.join(REPO, "script_*.py")))
ASPECTS = ("path", "nearest", "unit", "flat", "mirror", "lens", "ideal", "grating", "detector", "compound", "faerie")


class Unmodelled(Exception):
    pass


def fl(x, what):
    return vec3(x, what)


def num(x):
    return None if x is None else float(x)


class Recorder:
    """remembers with what arguments objects were made (the specification the models are built from)"""
    CLASSES = ("Mirror", "Lens", "Grating", "Detector", "Compound")
    SHAPES = ("Sphere", "InfiniteCylinder")

    def __init__(self):
        self.args = {}
        self.keep = []
        self.undo = []

    def wrap(self, cls):
        orig = cls.__dict__.get("__init__")
        if orig is None:
            return
        sig = inspect.signature(orig)
        rec = self

        def init(self, *a, **k):
            orig(self, *a, **k)
            if type(self) is not cls:
                return
            b = sig.bind(self, *a, **k)
            b.apply_defaults()
            rec.keep.append(self)
            rec.args[id(self)] = {n: (np.array(v) if isinstance(v, np.ndarray) else v)
                                  for n, v in list(b.arguments.items())[1:]}
        cls.__init__ = init
        self.undo.append((cls, "__init__", orig))

    def __enter__(self):
        import optics3d
        import Shapes.shapes as sh
        for c in self.CLASSES:
            self.wrap(getattr(optics3d, c))
        for c in self.SHAPES:
            self.wrap(getattr(sh, c))
        return self

    def __exit__(self, *e):
        for cls, name, orig in reversed(self.undo):
            setattr(cls, name, orig)


def leaf(shape, rec):
    a = rec.args.get(id(shape))
    kind = type(shape).__name__
    if a is None:
        raise Unmodelled("a shape made otherwise")
    R = float(a["R"]) if a.get("R") is not None else float(a["D"]) / 2
    if kind == "Sphere":
        return E.SphereLeaf(fl(a["center"], "centre"), R)
    return E.CylLeaf(fl(a["center"], "centre"), fl(a["direction"], "direction"), R)


def tree_spec(node, rec):
    v = node.getRootVal()
    if isinstance(v, str):
        return (v, tree_spec(node.getLeftChild(), rec), tree_spec(node.getRightChild(), rec))
    return leaf(v, rec)


def simple(tree):
    """tree shapes outside the known findings of C12, seen from outside"""
    if not isinstance(tree, tuple):
        return True
    op, a, b = tree
    if op == "union":
        return all(simple(x) and (not isinstance(x, tuple) or x[0] in ("union", "intersect")) for x in (a, b))
    return all(not isinstance(x, tuple) or (x[0] == "intersect" and simple(x)) for x in (a, b))


def model(o, rec):
    a = rec.args.get(id(o))
    kind = type(o).__name__
    if kind in ("Annotation", "Filter", "Window"):
        return E.Inert(kind, fl(o.position, "position"), (0.0, 0.0, 1.0))
    if a is None:
        raise Unmodelled(kind)
    if kind == "Compound":
        t = tree_spec(a["tree"], rec)
        if not simple(t):
            raise Unmodelled("tree shape under known findings")
        return E.CompoundEl(t, a["surface_behavior"], float(a["index"]))
    pos = fl(a["position"], "position")
    sh = a["shape"]
    n = fl(a["normal"], "normal") if a.get("normal") is not None else None
    t = fl(a["tangent"], "tangent") if a.get("tangent") is not None else None
    if kind == "Mirror":
        dmd = fl(a["dmd_normal"], "dmd_normal") if a["type"] == "dmd" else None
        if sh == "circular_flat":
            return E.RoundMirror(pos, n, float(a["D"]), dmd)
        if sh == "rectangular_flat":
            return E.RectMirror(pos, n, t, float(a["h"]), float(a["w"]), dmd)
        if sh == "circular_concave_spherical":
            return E.ConcaveMirror(pos, n, float(a["D"]), float(a["f"]))
        if sh == "circular_convex_spherical":
            return E.BallMirror(pos, float(a["D"]))
    if kind == "Lens":
        if sh == "spherical":
            return E.BallLens(pos, float(a["D"]), float(a["index"]))
        if a["type"] in ("ideal", "ideal_collimate", "ideal_focus"):
            return E.IdealLens(pos, n, float(a["D"]), float(a["f"]), a["type"])
    if kind == "Grating":
        return E.Grating(pos, n, t, float(a["h"]), float(a["w"]), float(a["G"]))
    if kind == "Detector":
        return E.Detector(pos, n, t, float(a["h"]), float(a["w"]))
    raise Unmodelled(kind + " " + str(sh))


def watched(ctx, rec, stats):
    """Ray.run, each call judged by the trajectory monitor"""
    orig = sut.Ray.run
    sig = inspect.signature(orig)
    state = {"inside": False}

    def run(self, *a, **k):
        if state["inside"]:
            return orig(self, *a, **k)
        b = sig.bind(self, *a, **k)
        b.apply_defaults()
        md = float(b.arguments["max_distance"])
        optics = list(b.arguments["optic_list"])
        mi = float(b.arguments.get("max_interactions", np.inf))
        try:
            els = [model(o, rec) for o in optics]
        except Unmodelled as e:
            ctx.skip("runs through something not modelled (%s)" % e)
            return orig(self, *a, **k)
        P = fl(self.position, "position")
        d = fl(self.direction, "direction")
        if id(self) in stats["left"]:
            settled(ctx, *stats["left"].pop(id(self)))
        L = 1.0
        for e in els:
            bd = e.bound()
            if bd is None:
                L = max(L, dist(P, e.tree.c) + e.tree.R if not isinstance(e.tree, tuple) else 0.0)
            else:
                L = max(L, dist(P, bd[0]) + bd[1])
        shot = Shot(P, d, self.wavelength, self.order, type=self.type)
        state["inside"] = True
        try:
            res, _ = run_monitored(ctx, els, optics, shot, L, md, max_int=mi, aspects=ASPECTS, ray=self,
                                   blocked0=bool(self.blocked))
        finally:
            state["inside"] = False
        stats["rays"] += 1
        for o in optics:
            if hasattr(o, "hit_data"):
                stats["rows"][id(o)] = (o, [np.array(r, dtype=float) for r in o.hit_data])
        ctx.ev("rays of the scripts watched")
        if res.complete:
            ctx.ev("rays of the scripts decided to their end")
        stats["kinds"].update(res.kinds)
        stats["left"][id(self)] = (self, fl(self.position, "position"), fl(self.direction, "direction"), self.wavelength, self.order, bool(self.blocked))
    return orig, run


def settled(ctx, ray, P, d, wl, order, blocked):
    """between runs, and after the last, nobody bends rays"""
    ctx.check(dist(fl(ray.position, "position"), P) == 0 and dist(fl(ray.direction, "direction"), d) == 0 and ray.wavelength == wl and ray.order == order and
              bool(ray.blocked) == blocked, "a ray is changed after its run", position=[P, ray.position], direction=[d, ray.direction], wavelength=[wl, ray.wavelength])
    ctx.ev("rays of the scripts as their runs left them")


_files = {"dir": None, "seen": []}


def _hook(event, args):
    here = _files["dir"]
    if here is None:
        return
    if event == "open":
        p, mode, flags = (tuple(args) + (None, None, None))[:3]
        if not isinstance(p, (str, bytes)):
            return
        if mode is None:
            wrote = bool(flags) and bool(flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT))
        else:
            wrote = bool(set("wax+") & set(str(mode)))
        if not wrote:
            return
    elif event in ("os.remove", "os.rename", "os.mkdir", "os.rmdir", "os.truncate", "os.link", "os.symlink"):
        p = args[0]
    elif event.startswith(("socket.connect", "socket.bind", "subprocess.", "os.system", "os.exec", "os.posix_spawn", "os.fork")):
        _files["seen"].append(event)
        return
    else:
        return
    p = os.path.realpath(os.fsdecode(p))
    if not (p.startswith(tuple(os.path.realpath(x) + os.sep for x in here)) or p.startswith("/dev/")):
        _files["seen"].append("%s %s" % (event, p))


def inventory(d):
    out = {}
    for r, ds, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            with open(p, "rb") as h:
                out[os.path.relpath(p, d)] = hash(h.read())
    return out


def script(ctx):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    name = SCRIPTS[ctx.idx % len(SCRIPTS)]
    turn = ctx.idx // len(SCRIPTS)
    ctx.desc = {"script": name, "turn": turn}
    d = tempfile.mkdtemp(prefix="mon-script-")
    here = os.getcwd()
    stats = {"rays": 0, "kinds": set(), "left": {}, "rows": {}}
    try:
        for p in glob.glob(os.path.join(REPO, "*.txt")):
            shutil.copy(p, d)
        os.mkdir(os.path.join(d, "grating diagrams"))
        before = inventory(d)
        os.chdir(d)
        plt.close("all")
        with Recorder() as rec:
            orig, run = watched(ctx, rec, stats)
            sut.Ray.run = run
            if not _files.get("armed"):
                sys.addaudithook(_hook)
                _files["armed"] = True
            _files["seen"], _files["dir"] = [], (d, matplotlib.get_cachedir(), matplotlib.get_configdir())
            try:
                runpy.run_path(os.path.join(REPO, name), run_name="__main__")
            except SystemExit as e:
                ctx.check(not e.code, "the script %s gave up with exit status %r" % (name, e.code))
            finally:
                _files["dir"] = None
                sut.Ray.run = orig
        for x in stats["left"].values():
            settled(ctx, *x)
        for o, rows in stats["rows"].values():
            now = [np.array(r, dtype=float) for r in o.hit_data]
            ctx.check(len(now) == len(rows) and all(np.array_equal(a, b) for a, b in zip(rows, now)),
                      "a detector's record is changed after the last run", was=rows[:5], now=now[:5])
            ctx.ev("detectors of the scripts as the runs left them")
        plt.close("all")
        with contextlib.redirect_stdout(io.StringIO()):    # once more, in the folder the first run left
            try:
                runpy.run_path(os.path.join(REPO, name), run_name="__main__")
            except SystemExit as e:
                ctx.check(not e.code, "the script %s gave up with exit status %r when run again" % (name, e.code))
        ctx.ev("scripts run again where they ran before")
        ctx.check(not _files["seen"], "the script %s wrote, or reached, outside its folder" % name, events=_files["seen"][:5])
        ctx.ev("scripts run to the end")
        for n in plt.get_fignums()[:3]:
            plt.figure(n).canvas.draw()
            ctx.ev("figures of the scripts rendered")
        after = inventory(d)
        for f, h in before.items():
            ctx.check(after.get(f) == h, "the script %s changed or removed the file %s it was given" % (name, f))
        ctx.seen(name, stats["rays"], tuple(sorted(stats["kinds"])), turn)
    finally:
        os.chdir(here)
        plt.close("all")
        shutil.rmtree(d, ignore_errors=True)


PROP = Prop(
    "C31",
    "every script_*.py of the repository run headless in a scratch folder, with every Ray.run it makes judged by the "
    "trajectory monitor against models built from the arguments its optics were made with; figures rendered; files "
    "it was given left alone; repeated with other states of the random generator (thorough)",
    [Family("scripts", script, len(SCRIPTS), len(SCRIPTS) * 12)],
    required=["scripts run to the end", "detectors of the scripts as the runs left them", "scripts run again where they ran before", "rays of the scripts watched", "rays of the scripts decided to their end",
              "figures of the scripts rendered", "probe rays stopped", "interactions checked: mirror round",
              "interactions checked: mirror rect", "interactions checked: mirror dmd",
              "interactions checked: mirror concave", "interactions checked: mirror ball",
              "interactions checked: lens ball", "interactions checked: ideal ideal",
              "interactions checked: ideal ideal_collimate", "interactions checked: compound refract",
              "interactions checked: grating grating", "absorptions checked: detector"],
    assumptions=RAY_ASSUMPTIONS + ["displays and interactive windows are not exercised (Agg)"])
