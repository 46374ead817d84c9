"""Virtual clock behind time.time/monotonic/perf_counter/sleep and tqdm's copy."""
import time
import tqdm.std

REAL = {n: getattr(time, n) for n in
        ("time", "monotonic", "perf_counter", "sleep", "time_ns",
         "monotonic_ns", "perf_counter_ns")}
_TQ = tqdm.std.time


class Clock:
    """Reads advance by `tick`; `jumps` is a list of [read_index, delta_seconds]
    applied to the wall clock (time.time) and, when `mono` is true, also to
    the monotonic ones (delta >= 0)."""

    def __init__(self, start=1.6e9, tick=1e-3, jumps=()):
        self.wall = start
        self.mono = 1000.0
        self.tick = tick
        self.jumps = sorted([int(i), float(d)] for i, d in jumps)
        self.reads = 0
        self.fired = 0
        self.on_sleep = None
        self.slept = 0.0
        self.start = start

    def _adv(self):
        while self.jumps and self.jumps[0][0] <= self.reads:
            _, d = self.jumps.pop(0)
            self.wall += d
            self.fired += 1
        self.reads += 1
        self.wall += self.tick
        self.mono += abs(self.tick)

    def time(self):
        self._adv()
        return self.wall

    def monotonic(self):
        self._adv()
        return self.mono

    def sleep(self, s):
        self.wall += s
        self.mono += s
        self.slept += s
        if self.on_sleep is not None:
            self.on_sleep(s)

    def advance(self, s):
        self.wall += s
        self.mono += s

    def __enter__(self):
        time.time = self.time
        time.monotonic = self.monotonic
        time.perf_counter = self.monotonic
        time.sleep = self.sleep
        time.time_ns = lambda: int(self.time() * 1e9)
        time.monotonic_ns = lambda: int(self.monotonic() * 1e9)
        time.perf_counter_ns = lambda: int(self.monotonic() * 1e9)
        tqdm.std.time = self.time
        return self

    def __exit__(self, *a):
        for n, f in REAL.items():
            setattr(time, n, f)
        tqdm.std.time = _TQ
