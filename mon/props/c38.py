"""C38 copies are as good as the original, and their own."""
import copy
import os
import pickle
import subprocess
import sys

import numpy as np

from ..core import Prop, Family, Skip, REPO
from ..common import *
from .. import sut, scenes, csg, elements as E, v3
from ..v3 import *
from .c17 import snap, result, equal, hits

WAYS = ["deepcopy", "pickle", "pickle old", "through several hands"]


def duplicate(ctx, x, way=None):
    way = way or ctx.pick(WAYS)
    if way == "deepcopy":
        y = copy.deepcopy(x)
    elif way == "pickle":
        y = pickle.loads(pickle.dumps(x, protocol=pickle.HIGHEST_PROTOCOL))
    elif way == "pickle old":
        y = pickle.loads(pickle.dumps(x, protocol=2))
    else:
        y = copy.deepcopy(pickle.loads(pickle.dumps(copy.deepcopy(x))))
    ctx.ev("copies made (%s)" % way)
    return y


def alike(a, b):
    """public attributes of an original and of its copy: vectors, numbers and names by value, anything else not compared"""
    if a.keys() != b.keys():
        return False
    for k in a:
        x, y = a[k], b[k]
        if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], np.ndarray):
            if not isinstance(y, tuple) or x[0] != y[0] or not np.array_equal(x[1], y[1]):
                return False
        elif isinstance(x, (int, float, str, bool, type(None), np.number)):
            if not (x == y or (x != x and y != y)):
                return False
    return True


def scene(ctx):
    """a scene, new or used, and a copy of it"""
    orders = (0, 1, -1)
    sc, shot = scenes.make_scene(ctx, scenes.ALL, orders=orders, end=ctx.pick([None, "detector"]), n_hits=ctx.i(1, 5), decoys=ctx.i(0, 3))
    shots = [shot] + scenes.extra_shots(ctx, sc, shot, ctx.i(2, 6))
    md = scenes.budget(ctx, sc.L)
    ctx.desc = {"scene": [e.desc() for e in sc.els], "rays": [s.desc() for s in shots]}

    def trace(s, optics):
        r = s.build()
        r.run(md, optic_list=optics, max_interactions=30)
        return result(r)

    alone, rows = [], []
    for s in shots:
        own = sc.build(sut)
        alone.append(trace(s, own))
        rows.append([hits(o) for o in own])

    first = sc.build(sut)
    ran = {0: []}
    for _ in range(ctx.i(0, 3)):                    # used before it is copied
        i = ctx.i(0, len(shots) - 1)
        trace(shots[i], first)
        ran[0].append(i)
    if ctx.chance(0.3):
        [repr(o) for o in first], str(first)
    # copies of the whole, of the parts, and of copies
    sets, ways = [first], ["original"]
    for _ in range(ctx.i(1, 3)):
        src = ctx.i(0, len(sets) - 1)
        way = ctx.pick(WAYS)
        if ctx.chance(0.5):
            new = duplicate(ctx, sets[src], way)
        else:
            new = [duplicate(ctx, o, way) for o in sets[src]]
        ctx.check(type(new) is list and len(new) == len(first) and all(type(a) is type(b) and a is not b for a, b in zip(new, sets[src])),
                  "a copy is not of the original's kind", way=way)
        for a, b in zip(sets[src], new):
            ctx.check(alike(snap(a), snap(b)), "a copy differs from the original", way=way, original=snap(a), copy=snap(b))
            ctx.check(hits(a) == hits(b), "a detector's copy does not hold its records", way=way, original=hits(a), copy=hits(b))
            if type(a).__repr__ is not object.__repr__:
                ctx.check(repr(a) == repr(b), "a copy prints otherwise", way=way, original=repr(a), copy=repr(b))
        ran[len(sets)] = list(ran[src])
        sets.append(new)
        ways.append(way)
        if ctx.chance(0.5):
            j = ctx.i(0, len(sets) - 1)
            i = ctx.i(0, len(shots) - 1)
            ctx.check(equal(trace(shots[i], sets[j]), alone[i]), "a ray goes another way through a copy", way=ways[j], ray=shots[i].desc(), alone=alone[i][0])
            ran[j].append(i)
    if len(sets) > 2 and ctx.chance(0.3):           # the copy outlives what it was copied from
        sets[0] = None
    order = [(i, j) for i in range(len(shots)) for j in range(len(sets)) if sets[j] is not None]
    for q in ctx.rng.permutation(len(order)):
        i, j = order[int(q)]
        r = trace(shots[i], sets[j])
        ran[j].append(i)
        ctx.check(equal(r, alone[i]), "a ray goes another way through a copy (or beside one)", set=j, way=ways[j], ray=shots[i].desc(), alone=alone[i][0], now=r[0])
        ctx.ev("rays through copies" if j else "rays through the original")
    for j, s in enumerate(sets):
        if s is None:
            continue
        for k, o in enumerate(s):
            if hasattr(o, "hit_data"):
                want = [h for i in ran[j] for h in rows[i][k]]
                ctx.check(hits(o) == want, "a detector that was copied, or is a copy, does not hold just its own rays' records", set=j, way=ways[j],
                          got=hits(o), expected=want)
                ctx.ev("records of copies compared", 1 if want and j else 0)
    ctx.seen(len(sets), tuple(len(a[0]) for a in alone), quant(shot.d))


def ray(ctx):
    """rays copied new, midway, and at their end; alone or together with their scene"""
    sc, shot = scenes.make_scene(ctx, scenes.ALL, orders=(0, 1, -1), end=ctx.pick([None, "detector"]), n_hits=ctx.i(1, 6), decoys=ctx.i(0, 2))
    md = scenes.budget(ctx, sc.L)
    ctx.desc = {"scene": [e.desc() for e in sc.els], "ray": shot.desc()}
    k = ctx.i(0, 4)
    more = ctx.u(0.1, 3) * sc.L

    def begun():
        r = shot.build()
        own = sc.build(sut)
        if k:
            r.run(md, optic_list=own, max_interactions=k)
        return r, own

    ref, own = begun()
    half = result(ref)
    half_rows = [hits(o) for o in own]
    ref.run(more, optic_list=own, max_interactions=20)
    full = result(ref)
    full_rows = [hits(o) for o in own]
    apart = ctx.u(0.1, 3) * sc.L if ctx.chance(0.5) else more      # the two may be sent on by different distances
    ref, own = begun()
    ref.run(apart, optic_list=own, max_interactions=20)
    full2 = result(ref)
    full2_rows = [hits(o) for o in own]

    a, oa = begun()
    ctx.check(equal(result(a), half), "the same ray traced again goes another way")
    with_scene = ctx.chance(0.5)
    way = ctx.pick(WAYS)
    if with_scene:
        b, ob = duplicate(ctx, (a, oa), way)
    else:
        b, ob = duplicate(ctx, a, way), oa
    ctx.check(type(b) is type(a) and b is not a, "a copy is not of the original's kind")
    ctx.check(equal(result(b), half), "a ray's copy is not where the ray is", way=way, original=half[0], copy=b.get_plot_repr())
    for n in ("wavelength", "order", "type"):
        ctx.check(getattr(a, n) == getattr(b, n), "a ray's copy has another %s" % n, way=way, original=getattr(a, n), copy=getattr(b, n))
    ctx.check(repr(a) == repr(b) and str(a) == str(b), "a ray's copy prints otherwise", way=way, original=str(a), copy=str(b))
    first, then = ctx.pick([((a, oa), (b, ob)), ((b, ob), (a, oa))])
    first[0].run(more, optic_list=first[1], max_interactions=20)
    ctx.check(equal(result(then[0]), half), "running a ray moved its copy (or the ray it was copied from)", way=way, before=half[0],
              after=then[0].get_plot_repr())
    if with_scene:
        ctx.check([hits(o) for o in then[1]] == half_rows, "running a ray through a scene left records in the scene's copy", way=way)
    then[0].run(apart, optic_list=then[1], max_interactions=20)
    for r, want in ((first[0], full), (then[0], full2)):
        ctx.check(equal(result(r), want), "a ray's copy does not run on as the ray does", way=way, expected=want[0], got=r.get_plot_repr())
    if with_scene:
        for o, want in ((first[1], full_rows), (then[1], full2_rows)):
            ctx.check([hits(x) for x in o] == want, "records differ between a scene and its copy", way=way)
    if apart != more:
        ctx.ev("a ray and its copy part ways")
    ctx.check(a.get_plot_repr() is not b.get_plot_repr() or a is b, "a ray and its copy share their path")
    ctx.ev("rays copied midway" if k else "rays copied new")
    ctx.ev("copied rays that were absorbed", 1 if half[2] else 0)
    ctx.seen(k, way, len(full[0]), quant(shot.d))


CHILD = r"""
import sys, pickle, warnings
warnings.simplefilter("ignore")
sys.path.insert(0, sys.argv[1])
jobs = pickle.load(sys.stdin.buffer)
out = []
for optics, rays in jobs:
    for ray, far, most in rays:
        ray.run(far, optic_list=optics, max_interactions=most)
    out.append((optics, [r[0] for r in rays]))
real = sys.stdout.buffer
real.write(b"RESULTS" + pickle.dumps(out))
real.flush()
"""


def abroad(ctx):
    """scenes and rays pickled, sent to a fresh process, traced there, and sent back"""
    jobs, local, here = [], [], []
    for _ in range(12):
        sc, shot = scenes.make_scene(ctx, scenes.ALL, orders=(0, 1, -1), end=ctx.pick([None, "detector"]), n_hits=ctx.i(1, 5), decoys=ctx.i(0, 2))
        shots = [shot] + scenes.extra_shots(ctx, sc, shot, ctx.i(1, 3))
        md, begun = scenes.budget(ctx, sc.L), ctx.i(0, 2)
        made = []
        for _ in range(2):
            optics, rays = sc.build(sut), [s.build() for s in shots]
            if begun:
                for r in rays:
                    r.run(md, optic_list=optics, max_interactions=begun)
            made.append((optics, rays))
        (oa, ra), (ob, rb) = made
        jobs.append((oa, [(r, md, 20) for r in ra]))
        before = [result(r) for r in ra], [hits(o) for o in oa]
        for r in rb:
            r.run(md, optic_list=ob, max_interactions=20)
        here.append(([result(r) for r in rb], [hits(o) for o in ob]))
        local.append((sc, shots, md, oa, ra, before))
    ctx.desc = {"first scene": [e.desc() for e in local[0][0].els], "rays": [s.desc() for s in local[0][1]]}
    p = subprocess.run([sys.executable, "-W", "ignore", "-c", CHILD, REPO], input=pickle.dumps(jobs), capture_output=True, timeout=300,
                       env=dict(os.environ, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1"))
    ctx.check(p.returncode == 0 and p.stdout.startswith(b"RESULTS"), "scenes sent to another process cannot be traced there", err=p.stderr.decode()[-800:],
              out=p.stdout[:200])
    back = pickle.loads(p.stdout[len(b"RESULTS"):])
    for (sc, shots, md, oa, ra, before), (want, rows), (optics, rays) in zip(local, here, back):
        for s, r, w in zip(shots, rays, want):
            ctx.check(equal(result(r), w), "a ray sent to another process goes another way there", scene=[e.desc() for e in sc.els], ray=s.desc(), here=w[0],
                      there=result(r)[0])
            ctx.ev("rays traced in another process")
        ctx.check([hits(o) for o in optics] == rows, "detectors sent to another process do not come back with its records", expected=rows,
                  got=[hits(o) for o in optics])
        ctx.check([hits(o) for o in oa] == before[1] and all(equal(result(r), w) for r, w in zip(ra, before[0])),
                  "what was done in another process shows in the originals")
        s = ctx.pick(shots)                        # what came back is as good as new
        a, b = s.build(), s.build()
        a.run(md, optic_list=oa, max_interactions=20)
        b.run(md, optic_list=optics, max_interactions=20)
        ctx.check(equal(result(a), result(b)), "a scene that was in another process bends light otherwise", ray=s.desc(), expected=result(a)[0], got=result(b)[0])
        ctx.ev("scenes traced after their return")
    ctx.seen(len(back), quant(here[0][0][0][1]))


def text(t):
    return sut.go.postOrderEval(t)


def tree(ctx):
    """CSG trees and solids: a copy answers alike, and is built on without the original taking part"""
    S, c = ctx.logu(0.5, 50), mul(scenes.rand_unit(ctx), ctx.u(0, 20))
    spec = csg.any_tree(ctx, c, S, ctx.i(1, 4))
    t = E.build_tree(spec, sut, share=ctx.chance(0.3))
    ctx.desc = {"tree": E.tree_desc(spec)}
    way = ctx.pick(WAYS)
    comp = ctx.chance(0.5)
    if comp:
        body = sut.Compound(t, surface_behavior=ctx.pick(["refract", "reflect"]), index=ctx.u(1.1, 2.5))
        other = duplicate(ctx, [body], way)
        worlds = ([body], other)
    u = duplicate(ctx, t, way)
    ctx.check(u is not t and type(u) is type(t), "a copy is not of the original's kind")
    ps = [np.array(madd(c, S * ctx.u(0, 2.5), scenes.rand_unit(ctx))) for _ in range(8)]
    inside = lambda x, p: bool(sut.go.test_tree_point(x, p))

    def tally():
        for p in ps:
            q = v3.tup(p)
            if not csg.sd_ok(spec, q, 1e-6 * (S + norm(q))):
                ctx.skip("next to a surface")
                continue
            want = E.member(spec, {id(lf): lf.sd(q) < 0 for lf in E.leaves(spec)})
            ctx.check(inside(t, p) == want, "a solid that was copied answers otherwise", point=p, expected=want, way=way)
            if not changed:
                ctx.check(inside(u, p) == want, "a solid's copy answers otherwise", point=p, expected=want, way=way)
            if comp:
                a, b = [sut.get_index_at_point(w, p) for w in worlds]
                ctx.check(a == b, "a body's copy has another index at a point", original=a, copy=b, way=way)
            ctx.ev("points asked of copied solids")

    changed = False
    was = str(text(t)) if isinstance(spec, tuple) else None
    if was is not None:
        shape = lambda s: "".join(x for x in s if x in "()un\\ ")
        ctx.check(shape(str(text(u))) == shape(was), "a solid's copy prints otherwise", way=way, original=was, copy=text(u))
    tally()
    # build on with the copy
    changed = True
    q = ctx.i(0, 3)
    if q == 0:
        u.insertLeft("union")
    elif q == 1:
        u.insertRight("difference")
    elif q == 2:
        u.setRootVal("union" if u.getRootVal() != "union" else "difference")
    else:
        x = u.getLeftChild()
        if x is not None:
            x.setRootVal("union" if x.getRootVal() != "union" else "intersect")
        else:
            u.insertLeft("x")
    tally()
    if was is not None:
        ctx.check(str(text(t)) == was, "building on with a copy changed the original", way=way, was=was, now=text(t))
    ctx.ev("copies built on")
    ctx.seen(q, way, quant(ps[0]))


PROP = Prop(
    "C38",
    "scenes (new or used), rays (new, midway, at their end), ray and scene together, CSG trees and bodies, each deep-copied, pickled (newest and oldest "
    "protocol) or both, or sent to another process and back, as a whole or piece by piece, and copies of copies; rays through originals and copies in random order must be bit-identical to the "
    "ray alone in a fresh scene, records must be just those of the rays run there, text and answers alike, and what is used or built on must leave the other alone",
    [Family("scene", scene, 2500), Family("ray", ray, 5000), Family("tree", tree, 5000), Family("abroad", abroad, 30)],
    required=["copies made (%s)" % w for w in WAYS] + ["rays through copies", "rays through the original", "records of copies compared", "rays copied new",
              "rays copied midway", "copied rays that were absorbed", "a ray and its copy part ways", "points asked of copied solids", "copies built on", "rays traced in another process", "scenes traced after their return"],
    assumptions=["copy.deepcopy and pickle only: shallow copies share their parts by definition"])
