"""C24 numbers and objects are printed as what they are."""
import contextlib
import io
import math
import re
from decimal import Decimal, ROUND_HALF_UP, ROUND_HALF_DOWN, Context

import numpy as np

from ..core import Prop, Family, Skip
from ..common import *
from .. import sut, scenes, elements as E, v3
from ..v3 import *

CTX = Context(prec=60, Emin=-999999, Emax=999999)


def rounded(x, p, how):
    """(digits, exponent) of |x| rounded to p significant digits"""
    d = Decimal(abs(x))
    e = d.adjusted()
    q = (d.scaleb(-(e - p + 1), CTX)).to_integral_value(rounding=how)
    s = str(int(q))
    if len(s) > p:
        s, e = s[:p], e + 1
    return s, e


def spell(sign, digits, e):
    p = len(digits)
    if e < -2 or e >= p:
        return sign + digits[0] + ("." + digits[1:] if p > 1 else "") + "e" + ("+" if e > 0 else "") + str(e)
    if e >= 0:
        return sign + digits[:e + 1] + ("." + digits[e + 1:] if e + 1 < p else "")
    return sign + "0." + "0" * (-e - 1) + digits


def allowed(x, p):
    """the texts that x rounded to p significant digits may have"""
    x = float(x)
    if x == 0:
        return {"0." + "0" * (p - 1)}
    sign = "-" if x < 0 else ""
    up = rounded(x, p, ROUND_HALF_UP)
    d = Decimal(abs(x))
    e = d.adjusted()
    t = d.scaleb(-(e - p + 1), CTX)
    frac = float(t - t.to_integral_value(rounding="ROUND_FLOOR"))
    if abs(frac - 0.5) < 4e-16 * 10 ** p + 1e-12 and not (frac == 0.5 and e - p + 1 >= 0 and abs(x) < 2 ** 50):
        return {spell(sign, *up), spell(sign, *rounded_down(x, p))}
    return {spell(sign, *up)}


def rounded_down(x, p):
    d = Decimal(abs(x))
    e = d.adjusted()
    q = (d.scaleb(-(e - p + 1), CTX)).to_integral_value(rounding="ROUND_FLOOR")
    alt = int(q)
    up = rounded(x, p, ROUND_HALF_UP)
    if (str(alt), e) == up:
        alt += 1
    s = str(alt)
    if len(s) > p:
        s, e = s[:p], e + 1
    return s, e


def number(ctx, p):
    k = ctx.i(0, 9)
    sg = ctx.pick([1, -1])
    if k == 0:
        return sg * 10.0 ** ctx.i(-20, 20)
    if k == 1:                                     # all nines: carries into another digit
        return sg * float("%se%d" % ("9." + "9" * ctx.i(0, p + 3), ctx.i(-12, 12)))
    if k == 2:                                     # exact halves
        n = ctx.i(10 ** (min(p, 9) - 1), 10 ** min(p, 9) - 1)
        return sg * float((10 * n + 5) * 10 ** ctx.i(0, 3))
    if k == 3:
        return sg * ctx.i(0, 10 ** ctx.i(1, 12))
    if k == 4:
        return sg * ctx.logu(1e-4, 1e-1)           # around the switch to the exponent form
    if k == 5:
        return sg * ctx.logu(10.0 ** (p - 1), 10.0 ** (p + 1))
    if k == 6:
        return sg * ctx.logu(1e-200, 1e200)
    if k == 7:
        return float("%se%d" % (ctx.i(1, 9), ctx.i(-9, 9))) * sg
    return sg * ctx.logu(1e-6, 1e6)


def precision(ctx):
    for _ in range(20):
        p = ctx.pick([1, 2, 3, 4, 5, 5, 5, 6, 8, 10, 12])
        x = number(ctx, p)
        form = ctx.pick(["float", "float", "np", "int"])
        v = x
        if form == "np":
            v = np.float64(x)
        elif form == "int" and float(x) == int(x) and abs(x) < 2 ** 53:
            v = int(x) if ctx.chance(0.5) else np.int64(int(x))
        ctx.desc = {"x": repr(v), "p": p}
        s = sut.ge.to_precision(v, p)
        ok = allowed(x, p)
        if float(x) == 0 and p == 1:
            ok = {"0.", "0"}
        ctx.check(isinstance(s, str) and s in ok, "%r to %d significant digits was printed as %r, which should be %s" % (v, p, s, " or ".join(sorted(ok))))
        ctx.ev("numbers printed: " + ("zero" if x == 0 else ("with an exponent" if "e" in s else "plainly")))
        ctx.seen(p, s)
    if ctx.chance(0.2):
        ctx.check(sut.ge.to_precision(ctx.pick([float("nan"), np.float64("nan")]), ctx.i(1, 9)).lower() == "nan", "NaN is not printed as NaN")
        ctx.ev("numbers printed: NaN")


NUM = r"-?\d+(?:\.\d*)?(?:e[-+]?\d+)?"
FULL = re.compile(r"\s*(\w+)\s*\(\s*(%s),\s*(%s),\s*(%s)\s*\)(?:,\s*\(\s*(%s),\s*(%s),\s*(%s)\s*\))?\s*$" % ((NUM,) * 6))


def close5(text, x, given=False):
    """x to five significant digits, spelt as numbers are"""
    if abs(x) > (0 if given else 1e-13):
        return text in allowed(x, 5) | allowed(x * (1 - 1e-13), 5) | allowed(x * (1 + 1e-13), 5)
    v = float(text)
    return abs(v - x) <= 0.5000001 * 10.0 ** (math.floor(math.log10(abs(x))) - 4) if abs(x) > 1e-14 else abs(v) <= 2e-14


def says(ctx, s, name, P, d):
    m = FULL.match(s)
    ctx.check(m is not None, "unreadable description %r" % s)
    ctx.check(m.group(1) == name, "a %s describes itself as %s" % (name, m.group(1)), text=s)
    for i in range(3):
        ctx.check(close5(m.group(2 + i), P[i], given=True), "the description does not give the position to five digits", text=s, position=P)
    if d is None:
        ctx.check(m.group(5) is None, "a direction is given for something that has none", text=s)
    else:
        ctx.check(m.group(5) is not None, "no direction is given", text=s)
        for i in range(3):
            ctx.check(close5(m.group(5 + i), d[i]), "the description does not give the direction to five digits", text=s, direction=d)


def objects(ctx):
    st = ctx.pick(["int", "float"])
    big = ctx.logu(1e-3, 1e4)
    pos = tuple(float(ctx.i(-40, 40)) for _ in range(3)) if st == "int" else mul(scenes.rand_unit(ctx), big)
    if st == "float" and ctx.chance(0.45):          # coordinates of all magnitudes side by side
        pos = tuple(ctx.pick([1, -1]) * ctx.pick([0.0, ctx.logu(1e-30, 1e30), ctx.logu(1e-6, 1e6)]) for _ in range(3))
    if st == "int":
        n_raw = ctx.pick(scenes.INT_NORMALS)
        ts = [t for t in scenes.INT_NORMALS if dot(t, n_raw) == 0]
        t_raw = ctx.pick(ts) if ts else v3.any_perp(unit(n_raw))
    else:
        n0 = scenes.rand_unit(ctx)
        n_raw, t_raw = scenes.raw(ctx, n0), scenes.raw(ctx, scenes.tangent_for(ctx, n0))
    n = unit(n_raw)
    h, w, D = ctx.logu(0.1, 100), ctx.logu(0.1, 100), ctx.logu(0.1, 100)
    kinds = {
        "round mirror": ("Mirror", n, lambda: E.RoundMirror(pos, n_raw, D, style=st).build(sut)),
        "rectangular mirror": ("Mirror", n, lambda: E.RectMirror(pos, n_raw, t_raw, h, w, style=st).build(sut)),
        "dmd": ("Mirror", n, lambda: E.RoundMirror(pos, n_raw, D, scenes.around(ctx, n, 0.9), style="float").build(sut)),
        "concave mirror": ("Mirror", n, lambda: E.ConcaveMirror(pos, n_raw, D, 2 * D, style=st).build(sut)),
        "ball mirror": ("Mirror", None, lambda: E.BallMirror(pos, D, style=st).build(sut)),
        "ideal lens": ("Lens", n, lambda: E.IdealLens(pos, n_raw, D, 3.0, "ideal", style=st).build(sut)),
        "ball lens": ("Lens", None, lambda: E.BallLens(pos, D, 1.5, style=st).build(sut)),
        "grating": ("Grating", n, lambda: E.Grating(pos, n_raw, t_raw, h, w, 600, style=st).build(sut)),
        "detector": ("Detector", n, lambda: E.Detector(pos, n_raw, t_raw, h, w, style=st).build(sut)),
        "annotation": ("Optic", n, lambda: E.Inert(ctx.pick(["Annotation", "Filter", "Window", "Optic"]), pos, n_raw, style=st).build(sut)),
        "ray": ("Ray", n, lambda: sut.Ray(E.arr(pos, st), E.arr(n_raw, st))),
    }
    k = ctx.pick(sorted(kinds))
    name, d, make = kinds[k]
    ctx.desc = {"object": k, "position": pos, "normal": n_raw}
    o = make()
    s = ctx.pick([repr, str, "{}".format])(o)
    says(ctx, s, name, pos, d)
    ctx.ev("objects described: " + k)
    ctx.seen(k, s)


def trajectory(ctx):
    """print_trajectory: the printed rays are the vertices of the path, in order; off: nothing is printed"""
    sc, shot = scenes.make_scene(ctx, scenes.ALL, orders=(0, 1), n_hits=ctx.i(1, 4), decoys=ctx.i(0, 3))
    optics = sc.build(sut)
    ctx.desc = {"scene": [e.desc() for e in sc.els], "ray": shot.desc()}
    buf = io.StringIO()
    loud = ctx.chance(0.7)
    with contextlib.redirect_stdout(buf):
        ray = sut.Ray(E.arr(shot.P, "float"), E.arr(shot.d_raw, "float"), wavelength=shot.wavelength, order=shot.order, print_trajectory=loud)
        ray.run(2 * sc.L, optic_list=optics, max_interactions=20)
    lines = buf.getvalue().splitlines()
    pts = ray.get_plot_repr()
    if not loud:
        ctx.check(not lines, "a ray that should keep quiet printed something", printed=lines[:5])
        ctx.ev("quiet rays")
        return
    got = []
    for ln in lines:
        m = FULL.match(ln)
        if m and m.group(1) == "Ray":
            g = tuple(m.group(i) for i in (2, 3, 4))
            if not got or got[-1] != g:
                got.append(g)
    want = []
    for p in pts:
        t = [tuple(float(x) for x in p)]
        want.append(t[0])
    # every vertex shows up, in order (consecutive vertices that print alike count once)
    i = 0
    for p in want:
        j = i
        while j < len(got) and not all(abs(float(a) - x) <= 0.6 * 10.0 ** (math.floor(math.log10(max(abs(x), 1e-13))) - 4) for a, x in zip(got[j], p)):
            j += 1
        ctx.check(j < len(got), "a vertex of the path was never printed", vertex=p, printed=got)
        i = j
    ctx.check(len(got) <= len(want), "positions were printed that are not on the path", printed=got, path=want)
    ctx.ev("trajectories printed", len(want))
    ctx.seen(len(want), tuple(e.kind for e in sc.els))


def expression(ctx, depth):
    """(tree, the printed leaves and operators as nested tuples)"""
    if depth == 0 or ctx.chance(0.25):
        name = "s%d" % ctx.i(0, 99)
        return sut.BinaryTree(name), name
    op = ctx.pick(["union", "difference", "intersect"])
    l, ls = expression(ctx, depth - 1)
    r, rs = expression(ctx, depth - 1)
    t = sut.BinaryTree(op)
    t.leftChild, t.rightChild = l, r
    return t, (op, ls, rs)


def parse(ctx, text):
    tok = text.split()
    ops = {"u": "union", "n": "intersect", "\\": "difference"}

    def one(i):
        if i < len(tok) and tok[i] == "(":
            l, i = one(i + 1)
            ctx.check(i < len(tok) and tok[i] in ops, "unreadable expression %r" % text)
            op = ops[tok[i]]
            r, i = one(i + 1)
            ctx.check(i < len(tok) and tok[i] == ")", "unreadable expression %r" % text)
            return (op, l, r), i + 1
        ctx.check(i < len(tok), "unreadable expression %r" % text)
        return tok[i], i + 1
    v, i = one(0)
    ctx.check(i == len(tok), "unreadable expression %r" % text)
    return v


def trees(ctx):
    t, want = expression(ctx, ctx.i(0, 5))
    ctx.desc = {"tree": want}
    s = sut.go.postOrderEval(t)
    got = parse(ctx, s)
    ctx.check(got == want, "the printed CSG expression is not the tree", printed=s)
    ctx.check(sut.go.postOrderEval(t) == s, "the same tree prints differently the second time")
    ctx.ev("CSG expressions printed")
    ctx.seen(s)


def columns(ctx):
    n = ctx.i(0, 45) if ctx.chance(0.7) else ctx.pick([0, 1, 9, 10, 11, 19, 20, 21, 30, 100])
    k = ctx.i(0, 3)
    if k == 0:
        a = np.array([ctx.i(-999, 999) for _ in range(n)])
        fmt = ctx.pick(["d", ".3f", ".4e", "6d", "g"])
    else:
        a = np.array([ctx.pick([1, -1]) * ctx.logu(1e-6, 1e6) if not ctx.chance(0.1) else 0.0 for _ in range(n)])
        fmt = ctx.pick([".4e", ".3f", "g", "12.5e", "+.2e", ".0f"])
    L, R, I = ctx.i(0, 6), ctx.i(0, 4), ctx.i(0, 8)
    ctx.desc = {"values": a.tolist(), "left": L, "right": R, "indent": I, "format": fmt}
    s = sut.ge.prism10widetextarray(a, L, R, I, fmt)
    want = []
    for r in range(0, max(n, 1), 10):
        line = " " * I
        for j, v in enumerate(a[r:r + 10]):
            line += " " * (L - (1 if v < 0 else 0)) + format(v, fmt) + (" " * R if j < 9 else "")
        want.append(line)
    ctx.check(s == "\n".join(want), "the text is not ten numbers to a line with the given padding", got=s, expected="\n".join(want))
    ctx.ev("ten-column tables printed")
    ctx.ev("numbers printed in tables", n)
    ctx.seen(n, L, R, I, fmt, s[:40])


def spaced(ctx):
    n = ctx.i(1, 60) if ctx.chance(0.8) else ctx.pick([1, 1000, 1001, 1500, 1500, int(ctx.logu(1500, 12000))])
    a = np.array([ctx.pick([1, -1]) * ctx.logu(1e-6, 1e6) if not ctx.chance(0.1) else 0.0 for _ in range(n)])
    fmt = ctx.pick([".4e", ".3f", "12.5e", "+.2e", ".1f"])
    L, R = " " * ctx.i(0, 5), " " * ctx.i(0, 4)
    width = ctx.i(20, 160)
    ctx.desc = {"values": a.tolist()[:60], "n": n, "left": L, "right": R, "width": width, "format": fmt}
    s = sut.ge.nparray2spacedstring(a, L, fmt, R, width)
    ctx.check(isinstance(s, str) and not re.search(r"[\[\],]", s), "brackets or commas are left over", got=s[:300])
    got, want = s.split(), [format(x, fmt).strip() for x in a]
    if len(L) + len(R) == 0:
        # numbers of a line may touch: only the sequence of characters is defined
        got, want = ["".join(got)], ["".join(want)]
    ctx.check(got == want, "the printed numbers are not the array's, in order", got=got[:60], expected=want[:60])
    longest = max(len(L + format(x, fmt) + R) for x in a)
    if longest + 4 <= width:
        ctx.check(max(len(x) for x in s.split("\n")) <= width + 1, "a line is longer than the given width", width=width, lines=s.split("\n")[:4])
    ctx.ev("spaced texts printed")
    ctx.ev("numbers printed in texts", n)
    ctx.seen(n, L, R, width, s[:40])


PROP = Prop(
    "C24",
    "numbers of all magnitudes (carries, exact halves, whole numbers, the switch to exponents) to 1..12 significant digits against decimal arithmetic; "
    "descriptions of every kind of object and printed trajectories parsed back; CSG expressions parsed back into their trees; number tables",
    [Family("precision", precision, 3000), Family("objects", objects, 5000), Family("trajectory", trajectory, 500, 6000), Family("trees", trees, 1500),
     Family("columns", columns, 3000), Family("spaced", spaced, 1500, 15000)],
    required=["numbers printed: " + k for k in ("zero", "with an exponent", "plainly", "NaN")] +
    ["objects described: " + k for k in ("round mirror", "ball mirror", "ball lens", "grating", "detector", "ray", "ideal lens", "annotation")] +
    ["trajectories printed", "quiet rays", "CSG expressions printed", "ten-column tables printed", "spaced texts printed"],
    assumptions=["|x| in 1e-200..1e200 and at most 12 digits; within rounding error of a half either neighbour is accepted, exact halves of whole numbers go away from zero"])
