"""Cooperative scheduler: real threads, of which exactly one runs at a time;
the simulator decides at every line of the code under test who runs next."""
import _thread
import zlib

from . import simlock

_mk = _thread.allocate_lock


class Deadlock(Exception):
    pass


class _Kill(BaseException):
    pass


class Task:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn
        self.go = _mk()
        self.go.acquire()
        self.done = False
        self.exc = None
        self.result = None
        self.quantum = 0
        self.waiting = None
        self.started = False
        self.steps = 0


class Sched:
    """choose(n, label) -> int in [0, n) is the only source of decisions."""

    QUANTA = (1, 1, 2, 2, 3, 4, 6, 9, 14, 25, 60, 200)
    STALLS = (1, 1, 2, 3, 5, 9, 17, 40, 100, 300, 1000, 20000)
    LONG = 20000            # to the end of what the thread does, as a rule

    def __init__(self, mon, choose, stats=None, max_switches=200000):
        self.mon, self.choose = mon, choose
        self.ctl = _mk()
        self.ctl.acquire()
        self.tasks = []
        self.by_id = {}
        self.current = None
        self.stats = stats
        self.switches = 0
        self.max_switches = max_switches
        self.trace = 0          # rolling hash of (task, line count): interleaving id
        self.on_switch = None
        self.policy = None

    # ---- called by managed threads --------------------------------------
    def managed(self):
        return _thread.get_ident() in self.by_id

    def on_line(self):
        t = self.by_id.get(_thread.get_ident())
        if t is None:
            return
        t.steps += 1
        t.quantum -= 1
        if t.quantum <= 0:
            self._park(t)

    def block(self, lock):
        t = self.by_id[_thread.get_ident()]
        t.waiting = lock
        self._park(t)

    def yield_now(self):
        t = self.by_id.get(_thread.get_ident())
        if t is not None:
            self._park(t)

    def _park(self, t):
        self.ctl.release()
        t.go.acquire()
        if t.exc == "kill":
            raise _Kill()

    # ---- controller ------------------------------------------------------
    def spawn(self, name, fn):
        t = Task(name, fn)
        self.tasks.append(t)
        return t

    def _body(self, t):
        t.go.acquire()
        self.by_id[_thread.get_ident()] = t
        try:
            if t.exc != "kill":
                t.result = t.fn()
        except _Kill:
            pass
        except BaseException as e:          # reported to the controller
            t.exc = e
        finally:
            t.done = True
            self.by_id.pop(_thread.get_ident(), None)
            self.ctl.release()

    def runnable(self):
        r = []
        for t in self.tasks:
            if t.done:
                continue
            if t.waiting is not None:
                if t.waiting.locked():
                    continue
                t.waiting = None
            r.append(t)
        return r

    def quantum(self):
        """Lines the chosen thread may run. Three policies: fine interleaving, threads
        stalled for long at times, and one pre-emption anywhere in a whole operation
        while the others finish theirs."""
        if self.policy is None:
            self.policy = self.choose(3, "policy")
        if self.policy == 0:
            return self.QUANTA[self.choose(len(self.QUANTA), "quantum")]
        if self.policy == 1:
            return self.STALLS[self.choose(len(self.STALLS), "quantum")]
        if self.choose(2, "to the end"):
            return self.LONG
        k = 2 ** self.choose(11, "magnitude")
        return k + self.choose(k, "quantum")

    def step(self):
        """Let one runnable task run for a chosen quantum; False when none."""
        r = self.runnable()
        if not r:
            if any(not t.done for t in self.tasks):
                raise Deadlock("all threads wait for a lock: %s" % (
                    [t.name for t in self.tasks if not t.done],))
            return False
        t = r[self.choose(len(r), "thread") if len(r) > 1 else 0]
        t.quantum = self.quantum() if len(r) > 1 else 1000
        if t is not self.current:
            self.switches += 1
            self.trace = zlib.crc32(("%s/%s" % (
                t.name, self.current.steps if self.current else 0)).encode(),
                self.trace)
        self.current = t
        if self.switches > self.max_switches:
            raise Deadlock("too many context switches")
        prev = simlock._current_sched[0]
        simlock._current_sched[0] = self
        try:
            if not t.started:
                t.started = True
                _thread.start_new_thread(self._body, (t,))
            t.go.release()
            self.ctl.acquire()
        finally:
            simlock._current_sched[0] = prev
        return True

    def run(self, until=None):
        prev = self.mon.sched
        self.mon.set_sched(self)
        try:
            while True:
                if until is not None and until():
                    return
                if not self.step():
                    return
        finally:
            self.mon.set_sched(prev)

    def kill_all(self):
        for t in self.tasks:
            if not t.done:
                t.exc = "kill"
                t.waiting = None
                t.quantum = 10 ** 9
                if not t.started:
                    t.done = True
                    continue
                t.go.release()
                self.ctl.acquire()
