"""Instrumentation of the running interpreter (sys.monitoring, no change to the code under test): a deterministic
scheduler of threads at bytecode granularity, faults at any bytecode, and counters of the work done.

Only code that belongs to the repository is instrumented; everything else runs at full speed."""
import gc
import sys
import threading
import types

from .core import REPO

TOOL = 4
M = sys.monitoring
_codes = []
_hook = [None]


def _nested(code, out):
    if code not in out:
        out.add(code)
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                _nested(c, out)


def repo_codes():
    """every function of the repository that is loaded, however it is wrapped"""
    out = set()
    for f in gc.get_objects():
        if isinstance(f, types.FunctionType):
            if f.__code__.co_filename.startswith(REPO):
                _nested(f.__code__, out)
    return out


def _on(code, where):
    h = _hook[0]
    if h is not None:
        return h(code, where)


def arm():
    """once per worker process"""
    if _codes:
        return
    M.use_tool_id(TOOL, "mon-inject")
    M.register_callback(TOOL, M.events.INSTRUCTION, _on)
    for c in repo_codes():
        M.set_local_events(TOOL, c, M.events.INSTRUCTION)
        _codes.append(c)


class counting:
    """how many bytecodes of the repository are run"""

    def __enter__(self):
        arm()
        self.n = 0

        def hook(code, where):
            self.n += 1
        _hook[0] = hook
        return self

    def __exit__(self, *a):
        _hook[0] = None


class Fault(BaseException):
    """what is thrown into the code under test (like KeyboardInterrupt, it is no Exception)"""


class fault_at:
    """raises at the k-th bytecode of the repository run inside; then lets everything be"""

    def __init__(self, k, exc=Fault):
        self.k, self.exc, self.fired = k, exc, None

    def __enter__(self):
        arm()
        left = [self.k]

        def hook(code, where):
            left[0] -= 1
            if left[0] == 0:
                self.fired = (code.co_name, where)
                _hook[0] = None
                raise self.exc("injected")
        _hook[0] = hook
        return self

    def __exit__(self, et, ev, tb):
        _hook[0] = None
        return et is not None and issubclass(et, self.exc) and self.fired is not None


class Scheduler:
    """runs the jobs in one thread each, one at a time, and hands over at bytecodes of the repository chosen by rng: the
    interleaving is a function of rng alone. A thread that waits for something another one holds is overtaken after a while."""

    def __init__(self, rng, mean):
        self.rng, self.mean = rng, mean
        self.switches = []

    def quantum(self):
        return int(self.rng.geometric(1.0 / self.mean))

    def run(self, jobs):
        arm()
        n = len(jobs)
        self.gate = [threading.Lock() for _ in range(n)]
        for g in self.gate:
            g.acquire()
        self.alive = set(range(n))
        self.left = self.quantum()
        who = {}
        results, errors = [None] * n, [None] * n

        def switch(me, leaving=False):
            others = sorted(self.alive) if not leaving else sorted(self.alive - {me})
            if not others:
                return
            nxt = others[int(self.rng.integers(0, len(others)))]
            self.left = self.quantum()
            if nxt == me:
                return
            self.gate[nxt].release()
            if not leaving:
                self.gate[me].acquire(timeout=5)

        def hook(code, where):
            me = who.get(threading.get_ident())
            if me is None:
                return
            self.left -= 1
            if self.left <= 0:
                if len(self.switches) < 20000:
                    self.switches.append((me, code.co_name, where))
                    switch(me)
                else:
                    self.left = 10 ** 9

        def body(me):
            self.gate[me].acquire(timeout=20)
            try:
                results[me] = jobs[me]()
            except BaseException as e:          # reported by the caller
                errors[me] = e
            finally:
                self.alive.discard(me)
                who.pop(threading.get_ident(), None)
                switch(me, leaving=True)

        def start(me):
            who[threading.get_ident()] = me
            body(me)
        ts = [threading.Thread(target=start, args=(k,), daemon=True) for k in range(n)]
        _hook[0] = hook
        try:
            for t in ts:
                t.start()
            self.gate[int(self.rng.integers(0, n))].release()
            for t in ts:
                t.join(60)
        finally:
            _hook[0] = None
        if any(t.is_alive() for t in ts):
            raise RuntimeError("threads did not come back")
        return results, errors
