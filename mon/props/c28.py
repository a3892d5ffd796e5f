"""C28 deleting files by extension deletes those files, and nothing else.

Everything happens in a scratch folder; while the code under test runs, the calls that remove or move things are replaced
by stand-ins that record their target and carry out only what stays inside that scratch folder.
"""
import contextlib
import io
import os
import shutil
import tempfile

from ..core import Prop, Family, Skip
from .. import sut

NAMES = ["a", "b", "data", "x y", "résumé", ".hidden", "a.b", "note.old", "UPPER"]
EXTS = [".txt", ".log", ".dat", ".tar.gz", ".x"]


class Guard:
    """stand-ins for everything that removes or moves"""
    CALLS = ["remove", "unlink", "rmdir", "removedirs", "rename", "replace", "renames", "truncate"]

    def __init__(self, root):
        self.root = os.path.realpath(root)
        self.escaped, self.removed = [], []

    def inside(self, p, dir_fd=None):
        if dir_fd is not None:
            try:
                base = os.readlink("/proc/self/fd/%d" % dir_fd)
            except OSError:
                return False
            p = os.path.join(base, os.fspath(p))
        parent = os.path.realpath(os.path.dirname(os.path.abspath(os.fspath(p))))
        return parent == self.root or parent.startswith(self.root + os.sep)

    def __enter__(self):
        self.real = {k: getattr(os, k) for k in self.CALLS}
        self.rmtree = shutil.rmtree

        def stand_in(name):
            def call(path, *a, **k):
                ok = self.inside(path, k.get("dir_fd"))
                if ok and name in ("rename", "replace", "renames") and a:
                    ok = self.inside(a[0])
                if not ok:
                    self.escaped.append((name, os.fspath(path)))
                    return None
                self.removed.append((name, os.fspath(path)))
                return self.real[name](path, *a, **k)
            return call
        for k in self.CALLS:
            setattr(os, k, stand_in(k))

        def rmtree(path, *a, **k):
            self.removed.append(("rmtree", os.fspath(path)))
            if not self.inside(path):
                self.escaped.append(("rmtree", os.fspath(path)))
                return
            self.rmtree(path, *a, **k)
        shutil.rmtree = rmtree
        return self

    def __exit__(self, *a):
        for k, f in self.real.items():
            setattr(os, k, f)
        shutil.rmtree = self.rmtree


def listing(root):
    out = {}
    for d, ds, fs in os.walk(root):
        for x in ds:
            p = os.path.join(d, x)
            out[os.path.relpath(p, root)] = ("link", os.readlink(p)) if os.path.islink(p) else ("dir",)
        for x in fs:
            p = os.path.join(d, x)
            if os.path.islink(p):
                out[os.path.relpath(p, root)] = ("link", os.readlink(p))
            else:
                with open(p, "rb") as f:
                    out[os.path.relpath(p, root)] = ("file", f.read())
    return out


def variants(ctx, ext):
    """a file name that has, or nearly has, the extension"""
    b = ctx.pick(NAMES)
    return ctx.pick([b + ext, b + ext, b + ext, b + ext.upper(), b + ext + ".bak", b + ext + "~", ext, ext[1:], b + ext[1:], b, b + ".other", ext[1:] + ".py",
                     b + ext + ext, ext + "x", b + ext[:-1]])


def fill(ctx, d, ext, depth, made):
    for _ in range(ctx.i(0, 6)):
        p = os.path.join(d, variants(ctx, ext))
        if not os.path.lexists(p):
            with open(p, "w") as f:
                f.write("content of " + p[-20:])
            made.append(p)
    if depth:
        for _ in range(ctx.i(0, 3)):
            n = ctx.pick(["sub", "deep", "dir" + ext, "a b", "other", ".cache"])
            p = os.path.join(d, n)
            if not os.path.lexists(p):
                os.mkdir(p)
                fill(ctx, p, ext, depth - 1, made)


def deletion(ctx):
    base = tempfile.mkdtemp(prefix="mon-del-")
    here = os.getcwd()
    try:
        ext = ctx.pick(EXTS)
        folder = os.path.join(base, ctx.pick(["work", "work" + ext, "w o r k"]))
        outside = os.path.join(base, "outside")
        cwd = os.path.join(base, "cwd")
        for d in (folder, outside, cwd):
            os.mkdir(d)
        made = []
        fill(ctx, folder, ext, ctx.i(0, 3), made)
        if ctx.chance(0.25):                             # far down
            d = folder
            for k in range(ctx.i(4, 16)):
                d = os.path.join(d, ctx.pick("abcd") + str(k))
                os.mkdir(d)
            fill(ctx, d, ext, 1, made)
            ctx.ev("folders far down")
        fill(ctx, outside, ext, 1, [])
        for p in made:                                   # same names where a relative path would look for them
            q = os.path.join(cwd, os.path.basename(p))
            if not os.path.lexists(q):
                with open(q, "w") as f:
                    f.write("keep")
        links = []
        if ctx.chance(0.5):
            p = os.path.join(folder, ctx.pick(["link", "link" + ext]))
            if not os.path.lexists(p):
                os.symlink(outside, p)
                links.append("to a folder")
        if ctx.chance(0.5):
            tgt = os.path.join(outside, "target" + ext)
            with open(tgt, "w") as f:
                f.write("target")
            p = os.path.join(folder, ctx.pick(["flink", "flink" + ext]))
            if not os.path.lexists(p):
                os.symlink(tgt, p)
                links.append("to a file")
        if ctx.chance(0.2):
            p = os.path.join(folder, "broken" + ext)
            if not os.path.lexists(p):
                os.symlink(os.path.join(base, "nowhere"), p)
        deep = ctx.chance(0.5)
        before = listing(base)
        rel = os.path.relpath(folder, base)

        def victim(p):
            if not (p.startswith(rel + os.sep)) or not os.path.basename(p).endswith(ext):
                return False
            full = os.path.join(base, p)
            if os.path.isdir(full):                      # folders, and links to folders, are not files
                return False
            return deep or os.path.dirname(p) == rel
        want = {p: v for p, v in before.items() if not victim(p)}
        how = ctx.i(0, 2)
        ctx.desc = {"tree": sorted(before), "extension": ext, "subdirectories": deep, "folder given": ["absolute", "with slash", "relative"][how]}
        os.chdir(cwd)
        given = [folder, folder + os.sep, os.path.join("..", os.path.basename(folder))][how]
        with Guard(base) as g, contextlib.redirect_stdout(io.StringIO()):
            try:
                if deep:
                    sut.ge.delete_files_with_extension(given, ext, ctx.pick([True, 1]) if ctx.chance(0.3) else True)
                elif ctx.chance(0.5):
                    sut.ge.delete_files_with_extension(given, ext)
                else:
                    sut.ge.delete_files_with_extension(given, ext, deleteInSubDirectories=False)
            finally:
                stands = os.path.realpath(os.getcwd())
                os.chdir(here)
        ctx.check(stands == os.path.realpath(cwd), "deleting changed the working directory", was=cwd, now=stands)
        ctx.check(not g.escaped, "something outside the scratch folder would have been removed", targets=g.escaped)
        after = listing(base)
        ctx.check(after == want, "the wrong files are gone", gone_wrongly=sorted(set(want) - set(after)), left_over=sorted(set(after) - set(want)),
                  changed=sorted(p for p in after if p in want and after[p] != want[p]))
        n = len(before) - len(want)
        ctx.ev("files deleted", n)
        ctx.ev("entries kept", len(want))
        ctx.ev("deletions with subfolders" if deep else "deletions in one folder")
        if any(os.path.basename(p).endswith(ext) and v[0] == "dir" and p.startswith(rel + os.sep) for p, v in before.items()):
            ctx.ev("folders named like the files, kept")
        for k in links:
            ctx.ev("links " + k)
        ctx.seen(ext, deep, n, len(before))
    finally:
        os.chdir(here)
        shutil.rmtree(base, ignore_errors=True)


PROP = Prop(
    "C28",
    "random folder trees (names that have, nearly have, or only contain the extension, folders and links named like files, links leading out of the folder, "
    "decoys in the working directory) before and after the call, compared entry by entry with what should have been deleted",
    [Family("deletion", deletion, 1200, 15000)],
    required=["files deleted", "entries kept", "deletions with subfolders", "deletions in one folder", "folders named like the files, kept", "links to a folder", "links to a file"],
    assumptions=["calls that delete are replaced by stand-ins confined to a scratch folder; permissions, and files changing meanwhile, are not explored"])
