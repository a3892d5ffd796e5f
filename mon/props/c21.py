"""C21 the binary tree, as a history of operations against a reference model, and the text of a CSG expression."""
from ..core import Prop, Family, Skip
from .. import sut, csg, scenes, elements as E
from ..v3 import *


class Node:
    def __init__(self, k):
        self.k, self.l, self.r = k, None, None


def nodes(n):
    return [] if n is None else [n] + nodes(n.l) + nodes(n.r)


def compare(ctx, t, n, path="root"):
    if n is None:
        ctx.check(t is None, "a child appeared from nowhere at %s" % path, got=repr(t))
        return
    ctx.check(t is not None, "a child is missing at %s" % path)
    ctx.check(t.getRootVal() is n.k or t.getRootVal() == n.k, "wrong value at %s" % path, got=t.getRootVal(), expected=n.k)
    compare(ctx, t.getLeftChild(), n.l, path + ".L")
    compare(ctx, t.getRightChild(), n.r, path + ".R")


def history(ctx):
    serial = [0]

    def val():
        serial[0] += 1
        q = ctx.u()
        if q < 0.5:
            return "v%d" % serial[0]
        if q < 0.7:
            return serial[0]
        if q < 0.8:
            return ctx.pick(["union", "intersect", "difference", "", 0, None])
        return sut.Sphere(__import__("numpy").array([float(serial[0]), 0.0, 0.0]), R=1.0)
    v = val()
    pairs = [(sut.BinaryTree(v), Node(v))]
    ops = []
    for _ in range(ctx.i(3, 25)):
        ti = ctx.i(0, len(pairs) - 1)
        t, n = pairs[ti]
        # walk to some node through the public accessors
        for _ in range(ctx.i(0, 4)):
            s = ctx.pick("LR")
            ct, cn = (t.getLeftChild(), n.l) if s == "L" else (t.getRightChild(), n.r)
            ctx.check((ct is None) == (cn is None), "a child is %s" % ("missing" if ct is None else "unexpected"), ops=ops)
            if cn is None:
                break
            t, n = ct, cn
        op = ctx.pick(["insertLeft", "insertLeft", "insertRight", "insertRight", "setRootVal", "new"])
        v = val()
        ops.append((op, repr(v)[:20]))
        if op == "insertLeft":
            t.insertLeft(v)
            x = Node(v)
            x.l, n.l = n.l, x
        elif op == "insertRight":
            t.insertRight(v)
            x = Node(v)
            x.r, n.r = n.r, x
        elif op == "setRootVal":
            t.setRootVal(v)
            n.k = v
        elif len(pairs) < 3:
            pairs.append((sut.BinaryTree(v), Node(v)))
        ctx.desc = {"ops": list(ops)}
        for pt, pn in pairs:
            compare(ctx, pt, pn)
        ctx.ev("tree states compared")
        ctx.counters["~" + op] += 1
    ctx.seen(len(nodes(pairs[0][1])), tuple(o[0] for o in ops))


def text(ctx):
    """the expression of a fully built tree, innermost first, left operand left"""
    sym = {"union": "u", "intersect": "n", "difference": "\\"}

    def gen(d):
        if d == 0 or ctx.chance(0.2):
            name = "P%d" % ctx.i(0, 99)
            return sut.BinaryTree(name), name
        op = ctx.pick(["union", "intersect", "difference"])
        t = sut.BinaryTree(op)
        l, ls = gen(d - 1)
        r, rs = gen(d - 1)

        def put(ins, get, sub):
            ins(sub.getRootVal())
            fill(get(), sub)

        def fill(dst, src):
            if src.getLeftChild() is not None:
                put(dst.insertLeft, dst.getLeftChild, src.getLeftChild())
            if src.getRightChild() is not None:
                put(dst.insertRight, dst.getRightChild, src.getRightChild())
        put(t.insertLeft, t.getLeftChild, l)
        put(t.insertRight, t.getRightChild, r)
        return t, "( %s %s %s )" % (ls, sym[op], rs)
    t, want = gen(ctx.i(0, 5))
    ctx.desc = {"expression": want}
    got = sut.go.postOrderEval(t)
    ctx.check(" ".join(str(got).split()) == want, "the text of a CSG tree is not its expression", got=got, expected=want)
    # values change, the shape stays: the text follows
    def labelled(n):
        if n.getLeftChild() is None:
            return str(n.getRootVal())
        return "( %s %s %s )" % (labelled(n.getLeftChild()), sym[n.getRootVal()], labelled(n.getRightChild()))
    for _ in range(ctx.i(0, 3)):
        n, down = t, ctx.i(0, 6)
        while n.getLeftChild() is not None and down:
            n, down = ctx.pick([n.getLeftChild(), n.getRightChild()]), down - 1
        v = ctx.pick(list(sym)) if n.getLeftChild() is not None else "Q%d" % ctx.i(0, 99)
        n.setRootVal(v)
        again, want2 = sut.go.postOrderEval(t), labelled(t)
        ctx.check(" ".join(str(again).split()) == want2, "after a change of a value the text of a CSG tree is not its expression", got=again, expected=want2)
        ctx.ev("expressions after a change")
    ctx.ev("expressions of depth %d" % (max((want[:i].count("(") - want[:i].count(")")) for i in range(len(want) + 1))))
    ctx.seen(want)


PROP = Prop(
    "C21",
    "histories of 3-25 operations (insertLeft, insertRight, setRootVal at any node, several trees side by side) compared after every step with a "
    "reference model through the public accessors; random full CSG trees of depth 0-5 rendered as text",
    [Family("history", history, 12000), Family("text", text, 8000)],
    required=["tree states compared", "expressions of depth 0", "expressions of depth 1", "expressions of depth 3", "expressions after a change"],
    assumptions=["text: every operator has two operands, as its comment requires"])
