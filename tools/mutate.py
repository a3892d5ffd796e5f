#!/usr/bin/env python3
"""Mutation analysis of the checks (development tool; no check reads its results).

    mutate.py list FILE                    the mutants of one file of /repo
    mutate.py run OUT.json FILE... [--budget CPU_S] [--limit N] [--jobs N]

Every mutant is a one-place change of the code; those the repository's own tests notice are dropped. For the others the
case families of the properties are run in small slices, in turn, in one process, until one reports a violation or the
CPU budget is spent (a "survivor", to be looked at by hand: either it changes no behaviour in scope, or a check is weak).
"""
import ast
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import tempfile
import time
import warnings

warnings.simplefilter("ignore")
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
           PYTEST_DISABLE_PLUGIN_AUTOLOAD="1")
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">="], ast.Gt: [">=", "<"], ast.GtE: [">", "<="], ast.Eq: ["!="], ast.NotEq: ["=="],
       ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
SYM = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.Is: "is", ast.IsNot: "is not",
       ast.In: "in", ast.NotIn: "not in"}
BIN = {ast.Add: ("+", "-"), ast.Sub: ("-", "+"), ast.Mult: ("*", "/"), ast.Div: ("/", "*"), ast.Pow: ("**", "*"), ast.Mod: ("%", "+"),
       ast.FloorDiv: ("//", "/")}
NAMES = {"sin": "cos", "cos": "sin", "tan": "sin", "arcsin": "arccos", "arccos": "arcsin", "min": "max", "max": "min", "any": "all",
         "all": "any", "argmin": "argmax", "ceil": "floor", "floor": "ceil", "left": "right", "right": "left", "x": "y", "cross": "dot"}


class Mut(ast.NodeVisitor):
    def __init__(self, src):
        self.src = src
        self.lines = src.splitlines(keepends=True)
        self.off = [0]
        for l in self.lines:
            self.off.append(self.off[-1] + len(l.encode()))
        self.b = src.encode()
        self.out = []

    def pos(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def text(self, n):
        a, b = self.pos(n)
        return self.b[a:b].decode()

    def sub(self, a, b, new, what, line):
        self.out.append((line, what, (self.b[:a] + new.encode() + self.b[b:]).decode()))

    def between(self, l, r, old, new, what, line):
        a, b = self.pos(l)[1], self.pos(r)[0]
        i = self.b.find(old.encode(), a, b)
        if i >= 0:
            self.sub(i, i + len(old.encode()), new, what, line)

    def visit_Compare(self, n):
        l = n.left
        for op, r in zip(n.ops, n.comparators):
            for new in CMP.get(type(op), []):
                self.between(l, r, SYM[type(op)], new, "%s -> %s" % (SYM[type(op)], new), n.lineno)
            l = r
        self.generic_visit(n)

    def visit_BinOp(self, n):
        if type(n.op) in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            o, m = BIN[type(n.op)]
            self.between(n.left, n.right, o, m, "%s -> %s" % (o, m), n.lineno)
            a, b = self.pos(n)
            self.sub(a, b, "(" + self.text(n.left) + ")", "drop right operand of " + o, n.lineno)
            if isinstance(n.op, (ast.Mult, ast.Add, ast.Sub)):
                self.sub(a, b, "(" + self.text(n.right) + ")", "drop left operand of " + o, n.lineno)
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        o, m = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
        for l, r in zip(n.values, n.values[1:]):
            self.between(l, r, o, m, "%s -> %s" % (o, m), n.lineno)
        a, b = self.pos(n)
        for k in range(len(n.values)):
            rest = [self.text(v) for i, v in enumerate(n.values) if i != k]
            self.sub(a, b, "(" + (" %s " % o).join(rest) + ")", "drop clause %d" % k, n.lineno)
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, (ast.USub, ast.Not)):
            a, b = self.pos(n)
            self.sub(a, b, "(" + self.text(n.operand) + ")", "drop unary", n.lineno)
        self.generic_visit(n)

    def visit_Constant(self, n):
        a, b = self.pos(n)
        v = n.value
        if isinstance(v, bool):
            self.sub(a, b, str(not v), "%s -> %s" % (v, not v), n.lineno)
        elif isinstance(v, (int, float)):
            for w in ([v + 1] if isinstance(v, int) else [v * 1.01 if v else 0.01, v * 10]):
                self.sub(a, b, repr(w), "%r -> %r" % (v, w), n.lineno)
            if v:
                self.sub(a, b, "0", "%r -> 0" % v, n.lineno)

    def visit_JoinedStr(self, n):
        pass

    def visit_Call(self, n):
        if len(n.args) == 2 and not any(isinstance(x, ast.Starred) for x in n.args):
            x, y = map(self.text, n.args)
            if x != y:
                self.sub(self.pos(n.args[0])[0], self.pos(n.args[1])[1], y + ", " + x, "swap arguments", n.lineno)
        if len(n.args) == 1 and not n.keywords and self.text(n.func) != "print":
            a, b = self.pos(n)
            self.sub(a, b, "(" + self.text(n.args[0]) + ")", "drop call of " + self.text(n.func)[:30], n.lineno)
        for k in n.keywords:
            if k.arg and len(n.keywords) > 1:
                pass
        self.generic_visit(n)

    def visit_Attribute(self, n):
        if n.attr in NAMES:
            a, b = self.pos(n)
            self.sub(b - len(n.attr), b, NAMES[n.attr], "%s -> %s" % (n.attr, NAMES[n.attr]), n.lineno)
        self.generic_visit(n)

    def visit_Subscript(self, n):
        self.generic_visit(n)

    def cond(self, n):
        a, b = self.pos(n.test)
        for new in ("True", "False"):
            self.sub(a, b, new, "condition -> " + new, n.test.lineno)
        self.generic_visit(n)

    visit_If = visit_IfExp = cond

    def visit_While(self, n):
        self.generic_visit(n)

    def stmt(self, n):
        a, b = self.pos(n)
        if not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)) and "print(" not in self.text(n)[:8]:
            self.sub(a, b, "pass", "drop: " + self.text(n).split("\n")[0][:60], n.lineno)
        self.generic_visit(n)

    visit_Assign = visit_AugAssign = visit_Expr = visit_Return = visit_Raise = visit_Break = visit_Continue = stmt

    def visit_FunctionDef(self, n):
        for s in n.body:
            self.visit(s)
        for d in n.args.defaults:
            self.visit(d)


def mutants(f):
    src = open(os.path.join(REPO, f), newline="").read()
    m = Mut(src)
    m.visit(ast.parse(src))
    out, seen = [], set()
    for line, what, new in m.out:
        if new not in seen and new != src:
            seen.add(new)
            try:
                compile(new, f, "exec")
            except SyntaxError:
                continue
            out.append((f, line, what, new))
    return out


CHILD = r'''
import sys, os, json, time, importlib, contextlib, io
root, repo, budget = sys.argv[1], sys.argv[2], float(sys.argv[4])
groups = [g.split(",") for g in sys.argv[3].split(";") if g]
sys.path.insert(0, root); sys.path.insert(0, repo)
sys.dont_write_bytecode = True
import warnings; warnings.simplefilter("ignore")
import numpy as np
from mon import core
np.seterr(all="ignore")
core.CASE_CPU_S = 20.0
listed = {(k["property"], k["key"]) for k in core.known_findings()}
def run(P, f, lo, hi):
    if f is None:
        with contextlib.redirect_stdout(io.StringIO()):
            for v in P.probes():
                if (P.id, v["key"]) not in listed:
                    return P.id, "probe " + v["key"]
        return None
    for i in range(lo, hi):
        ctx, v = core.run_case(P, f, 1, i, "quick")
        if v:
            return P.id, f.name, i, v["message"][:160]
left = 0
for g in groups:
    live = []
    for p in g:
        P = importlib.import_module("mon.props." + p.lower()).PROP
        live += [[P, f, 0] for f in P.families]
        if P.probes:
            live.append([P, None, 0])
    t0 = time.process_time()
    slice_s = 0.05
    while live and time.process_time() - t0 < budget:
        for x in list(live):
            P, f, at = x
            end = 1 if f is None else f.quick
            a = time.process_time()
            while x[2] < end and time.process_time() - a < slice_s:
                r = run(P, f, x[2], x[2] + 1)
                x[2] += 1
                if r:
                    print("KILLED " + json.dumps(r)); sys.exit(0)
            if x[2] >= end:
                live.remove(x)
        slice_s = min(2.0, slice_s * 2)
    left += len(live)
print("SURVIVED %d families unfinished" % left)
'''


def one(job):
    (f, line, what, new), pids, budget = job
    d = tempfile.mkdtemp(prefix="mut-")
    try:
        r = os.path.join(d, "repo")
        shutil.copytree(REPO, r, symlinks=True, ignore=shutil.ignore_patterns(".git"))
        open(os.path.join(r, f), "w", newline="").write(new)
        env = dict(ENV, OPTICS3D_REPO=r, MPLCONFIGDIR=d)
        try:
            p = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider"], cwd=r, env=env, capture_output=True, text=True, timeout=60)
            if p.returncode:
                return f, line, what, "tests", ""
        except subprocess.TimeoutExpired:
            return f, line, what, "tests", "timeout"
        try:
            p = subprocess.run([PY, "-W", "ignore", "-c", CHILD, ROOT, r, pids, str(budget)], cwd=d, env=env,
                               capture_output=True, text=True, timeout=budget * 6 + 120)
        except subprocess.TimeoutExpired:
            return f, line, what, "hang", ""
        last = ([l for l in p.stdout.splitlines() if l.startswith(("KILLED", "SURVIVED"))] or ["CRASH " + p.stderr[-300:]])[-1]
        return f, line, what, last.split()[0].lower(), last[len(last.split()[0]) + 1:]
    finally:
        shutil.rmtree(d, ignore_errors=True)


PIDS = {"general.py": ["C24", "C25", "C27", "C28", "C23", "C36", "C37"],
        "general_optics.py": ["C19", "C20", "C21", "C12", "C13", "C22", "C03", "C08", "C15", "C24", "C26", "C23", "C36", "C37"],
        "Shapes/shapes.py": ["C10", "C11", "C26", "C02", "C05", "C12", "C23", "C24", "C14", "C15", "C36", "C37", "C33", "C34"],
        "optics3d.py": ["C02", "C04", "C05", "C06", "C07", "C08", "C09", "C01", "C03", "C12", "C14", "C18", "C17", "C16", "C13", "C15",
                        "C26", "C29", "C30", "C32", "C36", "C37", "C24", "C23", "C33", "C34", "C35"]}
FIRST = {"draw": ["C23", "C37"], "__repr__": ["C24"], "__init__": ["C26", "C37"], "image_rays": ["C22", "C37"], "wavelength_to_rgb": ["C25", "C37"],
         "delete_files_with_extension": ["C28", "C37"], "pathpatch_2d_to_3d": ["C23"], "set_axes_equal": ["C23"], "set_axes_radius": ["C23"],
         "BinaryTree": ["C21"], "add_faerie_fire_rays": ["C29", "C37"], "postOrderEval": ["C21", "C24"], "to_precision": ["C24"],
         "savitzky_golay": ["C27"], "FD_int_num": ["C27"], "FD_int_approx": ["C27"], "operCsgUnion": ["C12"], "operCsgDifference": ["C12"],
         "operCsgIntersect": ["C12"], "get_index_at_point_if_inside": ["C13"]}


def order_of(f, line):
    """the properties to try, the likeliest first"""
    names = []
    for n in ast.walk(ast.parse(open(os.path.join(REPO, f), newline="").read())):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.lineno <= line <= n.end_lineno:
            names.append(n.name)
    first = [p for n in names for p in FIRST.get(n, [])]
    return first, [p for p in PIDS[f] if p not in first]


def main():
    if sys.argv[1] == "list":
        for f, l, w, _ in mutants(sys.argv[2]):
            print(l, w)
        return
    out, args = sys.argv[2], sys.argv[3:]
    opt = {"--budget": 60.0, "--limit": 0, "--jobs": 8, "--lines": ""}
    for k in list(opt):
        if k in args:
            i = args.index(k)
            opt[k] = args[i + 1]
            del args[i:i + 2]
    jobs = []
    for f in args:
        jobs += [(m, ";".join(",".join(g) for g in order_of(f, m[1])), float(opt["--budget"])) for m in mutants(f)]
    if opt["--lines"]:
        want = {tuple(x.split("@")) for x in opt["--lines"].split(";")}
        jobs = [j for j in jobs if (str(j[0][1]), j[0][2]) in want]
    if int(opt["--limit"]):
        step = max(1, len(jobs) // int(opt["--limit"]))
        jobs = jobs[::step]
    res, t0 = [], time.time()
    with mp.Pool(int(opt["--jobs"])) as pool:
        for r in pool.imap_unordered(one, jobs):
            res.append(r)
            if r[3] not in ("killed", "tests"):
                print(r, flush=True)
            if len(res) % 50 == 0:
                print("# %d/%d %d s" % (len(res), len(jobs), time.time() - t0), flush=True)
                json.dump(res, open(out, "w"))
    json.dump(res, open(out, "w"))
    from collections import Counter
    print(Counter(r[3] for r in res))


if __name__ == "__main__":
    main()
