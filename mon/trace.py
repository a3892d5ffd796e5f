"""Online checker of ray trajectories against the independent element models."""
import math

import numpy as np

from . import v3
from .v3 import sub, mul, neg, dot, norm, unit, dist, madd
from . import sut
from .elements import arr


def vec3(x, what):
    a = np.asarray(x)
    if a.shape != (3,):
        from .core import Violation
        raise Violation("%s is not a 3-vector: %r" % (what, x))
    return (float(a[0]), float(a[1]), float(a[2]))


def finite(v):
    return all(math.isfinite(x) for x in v)


class Result:
    def __init__(self):
        self.kinds = []         # what was interacted with, as decided by the oracle
        self.complete = False   # the whole run was decided
        self.why = ""
        self.vertices = None
        self.hits = []


def nearest(els, P, d, L):
    """('hit', el, t, payload) | ('miss',) | ('amb', t_low)"""
    best = None
    second = math.inf
    low = math.inf
    for el in els:
        st, t, pay = el.hit(P, d, L)
        if st == "hit":
            if best is None or t < best[1]:
                if best is not None:
                    second = min(second, best[1])
                best = (el, t, pay)
            else:
                second = min(second, t)
        elif st == "amb":
            low = min(low, 0.0 if t is None else t)
    if best is None and low == math.inf:
        return ("miss",)
    tb = best[1] if best else math.inf
    if low <= tb + 1e-6 * (1 + L):
        return ("amb", low)
    if best and second - tb < 1e-6 * (1 + L):
        return ("amb", tb)
    if best:
        return ("hit",) + best
    return ("miss",)


class Shot:
    """a ray about to be run, and everything the monitor needs to know about it"""

    def __init__(self, P, d_raw, wavelength=532, order=0, style="float", type="normal"):
        self.P, self.d_raw, self.d = P, d_raw, unit(d_raw)
        self.wavelength, self.order, self.style, self.type = wavelength, order, style, type

    def build(self):
        return sut.Ray(arr(self.P, self.style), arr(self.d_raw, self.style), wavelength=self.wavelength,
                       order=self.order, type=self.type)

    def desc(self):
        return "Ray(%s, %s, wavelength=%r, order=%r, type=%s)" % (
            v3.fmt(self.P), v3.fmt(self.d_raw), self.wavelength, self.order, self.type)


def run_monitored(ctx, els, optics, shot, L, max_distance, max_int=math.inf, aspects=("path",), ray=None,
                  start=None, blocked0=False):
    """run one ray through the scene and check the whole trajectory. `aspects` are the properties' facets that may
    raise; disagreements on other facets only stop the monitoring of this ray."""
    aspects = set(aspects)
    if ray is None:
        ray = shot.build()
    n0 = len(ray.get_plot_repr())
    dets = [(e, o, len(o.hit_data)) for e, o in zip(els, optics) if e.kind == "detector"]
    det_old = [[np.array(r, dtype=float) for r in o.hit_data] for _, o, _ in dets]
    before = np.array(ray.get_plot_repr(), dtype=float)
    kw = {} if max_int == math.inf else {"max_interactions": max_int}
    ray.run(max_distance, optic_list=optics, **kw)
    res = Result()

    def bad(names, msg, **w):
        if aspects & set(names):
            ctx.fail(msg, ray=shot.desc(), scene=[e.desc() for e in els], max_distance=max_distance,
                     max_interactions=max_int, vertices=np.array(ray.get_plot_repr(), dtype=float)[:12],
                     final_direction=list(ray.direction), blocked=bool(ray.blocked), **w)
        ctx.note("disagreement on a facet this property does not judge: " + "/".join(sorted(names)))
        res.why = "diverged"

    V = np.asarray(ray.get_plot_repr(), dtype=float)
    broken = False           # the ray became undefined somewhere: find the interaction that did it
    if V.ndim != 2 or V.shape[1] != 3 or not np.all(np.isfinite(V)):
        bad({"path", "unit"}, "the recorded path is not a list of finite points", got=V)
        if V.ndim != 2 or V.shape[1] != 3 or not np.all(np.isfinite(V[:n0])):
            return res, ray
        broken = True
        V = V[:int(np.argmin(np.all(np.isfinite(V), axis=1)))]
    fd = vec3(ray.direction, "ray.direction")
    fp = vec3(ray.position, "ray.position")
    if not finite(fd) or abs(norm(fd) - 1) > 1e-9:
        bad({"unit"}, "the ray's direction is not a finite unit vector", norm=norm(fd))
        broken = True
    else:
        ctx.counters["directions after a run checked to be unit"] += 1
    if ray.wavelength != shot.wavelength or ray.order != shot.order or ray.type != shot.type:
        bad({"unit"}, "tracing changed the ray's wavelength, order or type", wavelength=ray.wavelength,
            order=ray.order)
    if len(V) < n0 or not np.array_equal(V[:n0], before):
        bad({"path"}, "a run rewrote the path recorded before it", before=before)
        return res, ray
    verts = [tuple(float(x) for x in r) for r in V]
    res.vertices = verts
    scale = max([L, 1.0] + [abs(x) for v in verts[-1:] for x in v])
    if not broken and not dist(verts[-1], fp) <= 1e-12 * (1 + scale):
        bad({"path"}, "the ray's position is not the end of its path", position=fp, end=verts[-1])
        return res, ray

    last = len(verts) - 1
    k = n0 - 1
    P = verts[k]
    d = start if start is not None else shot.d
    remaining = float(max_distance)
    inter = 0
    blocked = bool(blocked0)
    info = {"order": shot.order, "wavelength": shot.wavelength}
    hit_det = None
    total = sum(dist(verts[i], verts[i + 1]) for i in range(k, last))
    if total > max(0.0, max_distance) * (1 + 1e-12) + 1e-9 * (1 + L):
        bad({"path"}, "the run moved the ray further than its distance budget", moved=total)
        return res, ray
    while True:
        if not blocked and 0 < remaining < 1e-6 * (1 + L) and inter:
            res.why = "distance budget used up exactly at a surface"
            break
        if blocked or remaining <= 0 or inter >= max_int:
            if k != last:
                names = {"path"}
                if hit_det is not None:
                    names.add("detector")
                if res.kinds and blocked:
                    names.add(res.kinds[-1])
                bad(names, "the ray went on after it was %s" % (
                    "absorbed" if blocked else "out of distance or interactions"), next=verts[k + 1:k + 3])
                return res, ray
            res.complete = True
            break
        r = nearest(els, P, d, L)
        free = r[0] == "miss" or (r[0] == "hit" and r[2] >= remaining + 1e-6 * (1 + L)) or \
            (r[0] == "amb" and r[1] > remaining + 1e-6 * (1 + L))
        if not free and (r[0] == "amb" or r[2] > remaining - 1e-6 * (1 + L)):
            res.why = "borderline encounter"
            break
        if free:
            Qe, el = madd(P, remaining, d), None
        else:
            el, t, pay = r[1], r[2], r[3]
            Qe = madd(P, t, d)
        if k == last:
            names = {"path"} | ({el.kind, "nearest"} if el else set()) | ({"flat"} if hasattr(el, "within") else set())
            bad(names, "the path stops although the ray has %g left to go and is not absorbed" % remaining,
                expected=Qe, element=el.desc() if el else "free flight", after=res.kinds)
            return res, ray
        Q = verts[k + 1]
        tol = 2e-9 * (1 + L) if el is not None else 1e-9 * (1 + L) + 1e-12 * remaining
        if dist(Q, Qe) > tol:
            s = dot(sub(Q, P), d)
            off = norm(madd(sub(Q, P), -s, d))
            names = {"path"} if off > 1e-7 * (1 + L) + 1e-8 * s else {"nearest"}
            if el is not None:
                names |= {el.kind}
                if hasattr(el, "within"):
                    names |= {"flat"}
            got = [e for e in els if e.on_surface(Q, 1e-6)]
            for e in got:
                names |= {e.kind}
            if s < 0 or (el is None and not got):
                names |= {"path"}
            for e in els:
                if hasattr(e, "within") and abs(dot(sub(Q, e.pos), e.n)) < 1e-6 and e.within(Q, 1e-6) == "out":
                    names |= {"flat"}
            bad(names, "the next vertex is not where the ray first meets something (or runs out of distance)",
                vertex_index=k + 1, from_=P, direction=d, got=Q, expected=Qe,
                expected_element=el.desc() if el else "free flight to the end of the budget",
                got_on=[e.desc() for e in got])
            return res, ray
        ctx.ev("segments checked")
        seg = dist(P, Q)
        remaining -= seg
        k += 1
        if el is None:
            res.kinds.append("end")
            if ray.blocked and k == last:
                bad({"path"}, "a ray that flew free to the end of its budget is marked absorbed")
                return res, ray
            if k == last and not dist(fd, d) <= 1e-9 + 8e-16 * scale / max(seg, 1e-3) * 10:
                bad({"path", "unit"}, "free flight changed the ray's direction", before=d, after=fd)
                return res, ray
            remaining = 0.0
            P = Q
            continue
        inter += 1
        res.kinds.append(el.kind)
        res.hits.append((el, Q, d))
        if shot.type == "faerie_fire":
            blocked = True
            if not ray.blocked or not dist(fd, shot.d) <= 1e-9:
                bad({"faerie", el.kind}, "a probe ray did not stop unchanged at the first surface", after=fd)
                return res, ray
            ctx.ev("probe rays stopped")
            P = Q
            continue
        a = el.act(Q, d, pay, info)
        if a[0] == "amb":
            res.why = "borderline interaction"
            break
        if a[0] == "block":
            blocked = True
            if el.kind == "detector":
                hit_det = el
            if not ray.blocked or k != last:
                bad({el.kind, "path"} if el.kind == "detector" else {el.kind},
                    "the ray was not absorbed" if el.kind == "detector" else "a ray whose order does not propagate "
                    "left the grating", at=Q, element=el.desc(), after=fd)
                return res, ray
            ctx.ev("absorptions checked: " + el.sub)
            P = Q
            continue
        de, cond = a[1], a[2]
        if k < last:
            s2 = dist(verts[k], verts[k + 1])
            if s2 <= 0:
                bad({"path"}, "the path contains a zero-length step", at=Q)
                return res, ray
            do = unit(sub(verts[k + 1], verts[k]))
            tolo = 1e-14 * scale / s2
        else:
            do, tolo = fd, 0.0
            if broken and not finite(fp):
                do = fp                           # flew on in an undefined direction
            if ray.blocked:
                bad({el.kind, "path"}, "a ray was absorbed by an optic that does not absorb", element=el.desc())
                return res, ray
        tol = (1e-9 + tolo + 1e-14 * (1 + scale) / max(seg, 1e-6)) * max(1.0, cond)
        if not dist(do, de) <= tol and not ("alt" in info and dist(do, info["alt"]) <= tol):
            bad({el.kind}, "the ray leaves the %s in the wrong direction" % el.kind, element=el.desc(), at=Q,
                incoming=d, outgoing=do, expected=de, error=dist(do, de), tolerance=tol)
            return res, ray
        info.pop("alt", None)
        ctx.ev("interactions checked: %s %s%s" % (el.kind, el.sub, " (total internal reflection)"
                                                   if info.pop("last", "") == "tir" else ""))
        if el.kind == "grating":
            ctx.counters["~grating order %+d" % shot.order] += 1
        P, d = Q, do
        if tolo > 1e-9:
            res.why = "step too short to see its direction"
            break
    # ---- what the detectors recorded
    for (e, o, n), old in zip(dets, det_old):
        new = list(o.hit_data)[n:]
        if len(o.hit_data) < n or any(not np.array_equal(np.asarray(x, dtype=float), y)
                                      for x, y in zip(o.hit_data, old)):
            bad({"detector"}, "a run changed hits recorded earlier", detector=e.desc())
            return res, ray
        want = 1 if (res.complete and hit_det is e) else 0
        if res.complete and len(new) != want:
            bad({"detector"}, "the detector recorded %d hits of this ray instead of %d" % (len(new), want),
                detector=e.desc(), recorded=new)
            return res, ray
        if len(new) > 1:
            bad({"detector"}, "one run of one ray recorded %d hits" % len(new), detector=e.desc(), recorded=new)
            return res, ray
        for row in new:
            row = np.asarray(row, dtype=float)
            if row.shape != (4,) or dist(tuple(row[:3]), verts[-1]) > 1e-9 * (1 + L) or row[3] != shot.wavelength:
                bad({"detector"}, "the recorded hit is not where the ray ended, with its wavelength",
                    detector=e.desc(), recorded=row, end=verts[-1], wavelength=shot.wavelength)
                return res, ray
            if not ray.blocked:
                bad({"detector"}, "a detected ray was not absorbed", detector=e.desc())
                return res, ray
            ctx.ev("detector rows checked")
        if not new:
            ctx.counters["detectors checked to have recorded nothing"] += 1 if res.complete else 0
    if not res.complete:
        ctx.skip(res.why)
    if len(res.hits) > 2:
        ctx.ev("runs meeting three or more surfaces")
    if len({id(h[0]) for h in res.hits}) > 2:
        ctx.ev("runs meeting three or more optics")
    return res, ray
