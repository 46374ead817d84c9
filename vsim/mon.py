"""sys.monitoring seam: one tool observing code objects of the code under test.

* LINE events are pre-emption points of the cooperative scheduler and feed the
  deterministic step budget (bounded liveness);
* CALL / C_RETURN events of calls leaving the code under test towards
  numpy, scipy, sklearn, pymanopt, ... are fault points.

Nothing in the repository is changed for this.
"""
import contextlib
import os
import sys
import types
import threading

TOOL = 3
E = sys.monitoring.events
DISABLE = sys.monitoring.DISABLE

FAULT_MODULES = ("numpy", "scipy", "sklearn", "joblib", "pymanopt", "autograd",
                 "copy", "vsim")


class BudgetExceeded(BaseException):
    """The code under test executed more lines than any terminating run may."""


class Monitor:
    def __init__(self, repo, extra_yield=()):
        self.root = os.path.join(os.path.realpath(repo), "robuststats") + os.sep
        self.extra = tuple(extra_yield)
        self._sut = {}
        self._yieldable = {}
        self.sched = None
        self.fault = None
        self.lines = 0
        self.budget = None
        self._on = False

    # -- classification ---------------------------------------------------
    def is_sut(self, code):
        r = self._sut.get(code.co_filename)
        if r is None:
            f = code.co_filename
            with contextlib.suppress(OSError):     # no working directory
                f = os.path.realpath(f)
            r = f.startswith(self.root)
            self._sut[code.co_filename] = r
        return r

    def is_yield(self, code):
        r = self._yieldable.get(code.co_filename)
        if r is None:
            f = code.co_filename
            with contextlib.suppress(OSError):     # no working directory
                f = os.path.realpath(f)
            r = (f.startswith(self.root)
                 and not f.endswith("utils" + os.sep + "verbose.py")) \
                or any(x in f for x in self.extra)
            self._yieldable[code.co_filename] = r
        return r

    # -- life cycle -------------------------------------------------------
    def start(self):
        if self._on:
            return
        sys.monitoring.use_tool_id(TOOL, "vsim")
        sys.monitoring.register_callback(TOOL, E.LINE, self._line)
        sys.monitoring.register_callback(TOOL, E.CALL, self._call)
        sys.monitoring.register_callback(TOOL, E.C_RETURN, self._creturn)
        self._on = True
        self._events()

    def _events(self):
        if not self._on:
            return
        ev = E.LINE
        if self.fault is not None:
            ev |= E.CALL
        sys.monitoring.set_events(TOOL, ev)
        sys.monitoring.restart_events()

    def stop(self):
        if self._on:
            sys.monitoring.set_events(TOOL, 0)
            sys.monitoring.free_tool_id(TOOL)
            self._on = False

    def set_fault(self, f):
        self.fault = f
        self._events()

    def set_sched(self, s):
        self.sched = s
        self._events()

    # -- callbacks --------------------------------------------------------
    def _line(self, code, line):
        if not self.is_yield(code):
            return DISABLE
        self.lines += 1
        if self.budget is not None and self.lines > self.budget:
            self.budget = None
            raise BudgetExceeded()
        s = self.sched
        if s is not None:
            s.on_line()

    def _call(self, code, offset, callee, arg0):
        if not self.is_sut(code):
            return DISABLE
        f = self.fault
        if f is not None:
            f.on_call(callee, arg0)

    def _creturn(self, code, offset, callee, arg0):
        f = self.fault
        if f is not None and self.is_sut(code):
            f.on_creturn(callee, arg0)


def callee_name(callee):
    """Dotted name of a third-party callable, or None when not one."""
    import numpy as np
    if isinstance(callee, np.ufunc):
        return "numpy." + callee.__name__
    if isinstance(callee, types.MethodType):
        callee = callee.__func__
    mod = getattr(callee, "__module__", None)
    name = getattr(callee, "__qualname__", None) or getattr(callee, "__name__", None)
    if isinstance(mod, str) and name:
        top = mod.split(".")[0]
        if top in FAULT_MODULES:
            return mod + "." + name
    s = getattr(callee, "__self__", None)
    if isinstance(s, np.ndarray) and name:
        return "numpy.ndarray." + name
    if s is not None and name:
        m = getattr(type(s), "__module__", None)
        if isinstance(m, str) and m.split(".")[0] in FAULT_MODULES:
            return m + "." + name
    oc = getattr(callee, "__objclass__", None)
    if oc is not None and issubclass(oc, np.ndarray):
        return "numpy.ndarray." + str(name)
    return None


class CallFault:
    """Counts, and at most once fails, calls leaving the code under test.

    at: 0-based index of the failing call; None only counts.
    after: raise when the call has returned instead of before it is made
           (C functions only; a Python callee fails before).
    """

    def __init__(self, at=None, exc=MemoryError, after=False, skip=()):
        self.at, self.exc, self.after = at, exc, after
        self.n = 0
        self.fired = None
        self.skip = tuple(skip)
        self.sites = []
        self._pending = None
        self.thread = threading.get_ident()

    def on_call(self, callee, arg0):
        if self.fired or self.thread not in (None, threading.get_ident()):
            return
        name = callee_name(callee)
        if name is None or name.startswith(self.skip or ("\0",)):
            return
        i = self.n
        self.n += 1
        if self.at is None:
            self.sites.append(name)
            return
        if i == self.at:
            self.fired = name
            raise self.exc("injected fault in %s" % name)

    def on_creturn(self, callee, arg0):
        pass


class InterruptAt:
    """Delivers KeyboardInterrupt where CPython would: on return of the n-th C
    call made by the code under test (signal flag set during that call)."""

    def __init__(self, at=None, exc=KeyboardInterrupt, libraries=False):
        self.at, self.exc = at, exc
        self.n = 0
        self.fired = None
        self.libraries = libraries      # only calls into numpy, scipy, ...
        self.sites = []
        self.thread = threading.get_ident()

    def on_call(self, callee, arg0):
        pass

    def on_creturn(self, callee, arg0):
        if self.fired or self.thread not in (None, threading.get_ident()):
            return
        if self.libraries and callee_name(callee) is None:
            return
        if callee is setattr:       # as good as an assignment
            return
        name = getattr(callee, "__qualname__", None) or repr(type(callee))
        i = self.n
        self.n += 1
        if self.at is None:
            self.sites.append(name)
            return
        if i == self.at:
            self.fired = name
            raise self.exc("injected interrupt after %s" % name)
