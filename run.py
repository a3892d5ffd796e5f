#!/opt/venv/bin/python
"""usage: run.py <property id> [--replay FILE]      (see DESIGN.md)"""
import os
import sys

ENV = {"PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "MPLBACKEND": "Agg", "OMP_NUM_THREADS": "1",
       "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1"}
PY = "/opt/venv/bin/python"


def child():
    import importlib
    import shutil
    import tempfile
    import warnings
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path.insert(0, here)
    repo = os.environ.get("OPTICS3D_REPO", "/repo")
    sys.path.insert(0, repo)
    sys.dont_write_bytecode = True
    warnings.simplefilter("ignore")
    scratch = tempfile.mkdtemp(prefix="mon-")
    os.environ["TMPDIR"] = os.environ["MON_SCRATCH"] = scratch
    os.environ["MPLCONFIGDIR"] = os.path.join(scratch, "mpl")
    os.mkdir(os.path.join(scratch, "mpl"))
    tempfile.tempdir = scratch            # whatever a check makes is inside, and goes with it however the check ends
    try:
        from mon import core
        pid = sys.argv[1]
        if pid == "--selftest":
            from mon import elements, scenes, csg, equiv, common, trace   # noqa: F401
            print("harness loads; code under test at", repo)
            return 0
        try:
            mod = importlib.import_module("mon.props." + pid.lower())
        except Exception:
            import traceback
            traceback.print_exc()
            print("INCONCLUSIVE property=%s: could not load the check or the code under test" % pid)
            return 2
        return core.main(mod.PROP, sys.argv[2:])
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    if os.environ.get("MON_CHILD") != "1":
        env = dict(os.environ, MON_CHILD="1", **ENV)
        os.execve(PY, [PY, "-W", "ignore"] + sys.argv, env)
    sys.exit(child())
