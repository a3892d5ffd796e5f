#!/usr/bin/env python3
"""Planted bugs (development tool; no check reads /verif/seeded).

    bugs.py make SPEC.py [ids]   build seeded/<id>/ from a list BUGS in SPEC.py and validate each
    bugs.py try [ids]            run the checks of the planted bugs against patched copies
    bugs.py quiet [ids]          the checks against copies with a comment / do-nothing statement only
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SEEDED = os.path.join(ROOT, "seeded")
EXTRA = "/tmp/bugs/extra"          # good for testing the checks, but not counted: they touch no line of the original
BASE = "795234a"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1")
PY = "/opt/venv/bin/python"
DEMO_SH = """#!/bin/bash
# exit 0: the property holds; nonzero: broken
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH="$PWD"
exec /opt/venv/bin/python -W ignore "$here/demo.py"
"""
DEMO_HEAD = """import sys
import math
import numpy as np
sys.path.insert(0, %s)
from numpy.linalg import norm


def v(*x):
    return np.array([float(a) for a in x])


def near(a, b, tol=1e-7):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    assert a.shape == b.shape and np.all(np.abs(a - b) <= tol), (a, b)


""" % '__import__("os").getcwd()'


def sh(cmd, **k):
    return subprocess.run(cmd, capture_output=True, text=True, **k)


def copy():
    d = tempfile.mkdtemp(prefix="bug-")
    r = os.path.join(d, "repo")
    shutil.copytree(REPO, r, symlinks=True)
    return d, r


def tests(r):
    p = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider"], cwd=r, env=ENV)
    m = re.search(r"(\d+) passed", p.stdout)
    return int(m.group(1)) if m and "failed" not in p.stdout and "error" not in p.stdout.lower().replace("errors", "x") else -1


def demo(folder, r):
    p = sh(["bash", os.path.join(folder, "demo.sh")], cwd=r, env={k: v for k, v in os.environ.items()}, timeout=300)
    return p.returncode, (p.stdout + p.stderr)[-300:]


def base_lines(r, f):
    """line numbers of f in HEAD that come from the original repository"""
    p = sh(["git", "blame", "-s", "HEAD", "--", f], cwd=REPO)
    return {i + 1 for i, l in enumerate(p.stdout.splitlines()) if l.lstrip("^").startswith(BASE[:6])}


def removed(patch):
    out, f, n = [], None, 0
    for l in patch.splitlines():
        if l.startswith("--- a/"):
            f = l[6:]
        elif l.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-") and not l.startswith("---"):
            out.append((f, n))
            n += 1
        elif l.startswith(" "):
            n += 1
    return out


def make(bug):
    d, r = copy()
    try:
        for f, old, new in bug["edits"]:
            p = os.path.join(r, f)
            s = open(p, newline="").read()
            if "\r\n" in s:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            k = bug.get("nth", {}).get(old, None)
            if s.count(old) != 1 and k is None:
                return bug["id"], "edit matches %d times: %r" % (s.count(old), old)
            s = s.replace(old, new)
            open(p, "w", newline="").write(s)
        patch = sh(["git", "diff"], cwd=r).stdout
        rem = removed(patch)
        orig = {f: base_lines(r, f) for f, _ in rem}
        bad = [x for x in rem if x[1] not in orig[x[0]]]
        folder = os.path.join(EXTRA if not rem or bad else SEEDED, bug["id"])
        os.makedirs(folder, exist_ok=True)
        open(os.path.join(folder, "patch.diff"), "w", newline="").write(patch)
        open(os.path.join(folder, "demo.sh"), "w").write(DEMO_SH)
        os.chmod(os.path.join(folder, "demo.sh"), 0o755)
        open(os.path.join(folder, "demo.py"), "w").write(DEMO_HEAD + bug["demo"].strip() + "\n")
        json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]},
                  open(os.path.join(folder, "meta.json"), "w"), indent=1)
        msgs = []
        n = tests(r)
        if n < 24:
            msgs.append("tests: %d" % n)
        rc, out = demo(folder, r)
        if rc == 0:
            msgs.append("demo passes with the bug")
        elif "AssertionError" not in out:
            msgs.append("(demo fails with: %s)" % out.strip().splitlines()[-1])
        sh(["git", "checkout", "--", "."], cwd=r)
        rc, out = demo(folder, r)
        if rc != 0:
            msgs.append("demo fails without it: " + out)
        if sh(["git", "apply", "--check", os.path.join(folder, "patch.diff")], cwd=r).returncode:
            msgs.append("patch does not apply")
        if any(m for m in msgs if not m.startswith("(")):
            shutil.rmtree(folder)
        if not rem or bad:
            msgs.append("(extra: not original lines: %s)" % (bad or "pure insertion"))
        return bug["id"], "; ".join(msgs) or "ok"
    finally:
        shutil.rmtree(d)


def check(pid, r, tier="quick"):
    env = dict(os.environ, OPTICS3D_REPO=r, VERIF_TIER=tier)
    p = sh([os.path.join(ROOT, "run.py"), pid], cwd=ROOT, env=env)
    line = [l for l in p.stdout.splitlines() if l.strip()]
    detail = ""
    for i, l in enumerate(line):
        if l.startswith("VIOLATION"):
            detail = " | ".join(line[i + 1:i + 3])
    return p.returncode, detail or (line[-1] if line else p.stderr[-200:])


def attempt(bid, pids=None):
    folder = os.path.join(SEEDED, bid)
    if not os.path.isdir(folder):
        folder = os.path.join(EXTRA, bid)
    meta = json.load(open(os.path.join(folder, "meta.json")))
    d, r = copy()
    try:
        p = sh(["git", "apply", os.path.join(folder, "patch.diff")], cwd=r)
        if p.returncode:
            return bid, {meta["property"]: (-1, "does not apply: " + p.stderr)}
        return bid, {q: check(q, r) for q in (pids or [meta["property"]])}
    finally:
        shutil.rmtree(d)


def quiet(bid):
    folder = os.path.join(SEEDED, bid)
    if not os.path.isdir(folder):
        folder = os.path.join(EXTRA, bid)
    meta = json.load(open(os.path.join(folder, "meta.json")))
    patch = open(os.path.join(folder, "patch.diff")).read()
    d, r = copy()
    try:
        for f in sorted({x[0] for x in removed(patch)}):
            with open(os.path.join(r, f), "a") as h:
                h.write("\n# a comment\n")
        return bid, {meta["property"]: check(meta["property"], r)}
    finally:
        shutil.rmtree(d)


def main():
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == "make":
        ns = {}
        exec(open(args[0]).read(), ns)
        bugs = [b for b in ns["BUGS"] if len(args) < 2 or b["id"] in args[1:]]
        with cf.ThreadPoolExecutor(8) as ex:
            for bid, msg in ex.map(make, bugs):
                print("%-28s %s" % (bid, msg), flush=True)
        return
    pids = None
    if "--with" in args:
        i = args.index("--with")
        pids, args = args[i + 1].split(","), args[:i]
    ids = args or sorted(os.listdir(SEEDED))
    if ids == ["extra"]:
        ids = sorted(os.listdir(EXTRA))
    for bid in ids:
        _, res = attempt(bid, pids) if cmd == "try" else quiet(bid)
        for pid, (rc, msg) in res.items():
            print("%-28s %s rc=%d %s" % (bid, pid, rc, msg[:230]), flush=True)


if __name__ == "__main__":
    main()
