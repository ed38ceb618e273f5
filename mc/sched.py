"""
Controlled execution of the real code

Points: every line of the package under test that is about to be executed.
``Baton`` runs threads one at a time and switches exactly where a schedule says;
``fault_at`` raises an exception at exactly one point.
"""
import gc
import sys
import threading
import types

from .world import PKG_DIR

SKIP = ("_version.py",)


_TOOL = 4
_STATE = {"on": False, "callback": None}


def package_codes():
    """Code objects of every function of the package, nested ones included"""
    seen, todo = set(), []
    for o in gc.get_objects():
        if isinstance(o, types.FunctionType):
            todo.append(o.__code__)
    while todo:
        c = todo.pop()
        if c in seen or not c.co_filename.startswith(PKG_DIR) or c.co_filename.endswith(SKIP):
            continue
        seen.add(c)
        todo += [k for k in c.co_consts if isinstance(k, types.CodeType)]
    return seen


def _on_line(code, line):
    cb = _STATE["callback"]
    if cb is not None:
        cb(code.co_filename.rsplit("/", 1)[-1], line)


def enable():
    """Instrument the package's lines (once per process; nothing else slows down)"""
    if _STATE["on"]:
        return
    mon = sys.monitoring
    mon.use_tool_id(_TOOL, "mc")
    mon.register_callback(_TOOL, mon.events.LINE, _on_line)
    for c in package_codes():
        mon.set_local_events(_TOOL, c, mon.events.LINE)
    _STATE["on"] = True


class LineHook:
    """Calls back before every package line executed"""

    def __init__(self, callback):
        self.callback = callback

    def __enter__(self):
        enable()
        _STATE["callback"] = self.callback
        return self

    def __exit__(self, *exc):
        _STATE["callback"] = None
        return False


def count_points(func):
    """Number of points of an operation, and their lines"""
    lines = []

    def note(fname, line):
        lines.append((fname, line))

    with LineHook(note):
        func()
    return lines


def fault_at(func, point, exc):
    """Run func, raising exc at the given point; (raised exception or None, reached line)"""
    state = {"n": 0, "line": None}

    def strike(fname, line):
        if state["n"] == point:
            state["n"] += 1
            state["line"] = (fname, line)
            raise exc
        state["n"] += 1

    try:
        with LineHook(strike):
            value = func()
    except BaseException as got:  # pylint: disable=broad-except
        if got is exc:
            return "same", state["line"]
        if type(got).__name__ == "CaseTimeout":
            raise
        return got, state["line"]
    return ("returned", value), state["line"]


class Baton:
    """
    Deterministic scheduler

    ``schedule``: list of (thread, point) pairs; the running thread gives way to
    the next unfinished one (round robin) when it reaches its listed point.
    Exactly one thread runs at any time.
    """

    def __init__(self, funcs, schedule, first=0):
        self.funcs = funcs
        self.switch = {}
        for t, p in schedule:
            self.switch.setdefault(t, set()).add(p)
        self.sems = [threading.Semaphore(0) for _ in funcs]
        self.done = [False] * len(funcs)
        self.count = [0] * len(funcs)
        self.errors = [None] * len(funcs)
        self.results = [None] * len(funcs)
        self.finished = threading.Semaphore(0)
        self.first = first
        self.switches = 0
        self.ident = {}

    def _line(self, _fname, _line):
        t = self.ident.get(threading.get_ident())
        if t is not None:
            self._point(t)

    def _next(self, t):
        for d in range(1, len(self.funcs) + 1):
            o = (t + d) % len(self.funcs)
            if not self.done[o]:
                return o
        return None

    def _point(self, t):
        n = self.count[t]
        self.count[t] += 1
        if n in self.switch.get(t, ()):
            o = self._next(t)
            if o is not None and o != t:
                self.switches += 1
                self.sems[o].release()
                self.sems[t].acquire()

    def _body(self, t):
        self.sems[t].acquire()
        self.ident[threading.get_ident()] = t
        try:
            self.results[t] = self.funcs[t]()
        except Exception as exc:  # pylint: disable=broad-except
            self.errors[t] = exc
        finally:
            self.done[t] = True
            o = self._next(t)
            if o is not None:
                self.sems[o].release()
            else:
                self.finished.release()

    def run(self):
        threads = [
            threading.Thread(target=self._body, args=(t,), daemon=True)
            for t in range(len(self.funcs))
        ]
        for th in threads:
            th.start()
        with LineHook(self._line):
            self.sems[self.first].release()
            if not self.finished.acquire(timeout=240):
                raise RuntimeError("threads did not finish under schedule")
        for th in threads:
            th.join(timeout=10)
        return self.results, self.errors
