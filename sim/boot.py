"""Bring the process under the simulator's control *before* collagraph is imported:
virtual clock, no automatic garbage collection, /repo first on sys.path."""
import gc
import os
import sys
import time

REPO = os.environ.get("VERIF_REPO", "/repo")

sys.dont_write_bytecode = True
os.environ.setdefault("QT_QPA_PLATFORM", "offscreen")
os.environ.setdefault("QT_LOGGING_RULES", "*=false")


class Clock:
    """Virtual clock.  Reading it costs simulated time (the next entry of a cyclic
    cost list), which is what makes rendering work take time."""

    def __init__(self):
        self.reset([0])

    def reset(self, costs):
        self.ns = 1_000_000_000_000
        self.costs = [int(c) for c in costs] or [0]
        self.i = 0
        self.reads = 0

    def read(self):
        self.reads += 1
        self.ns += self.costs[self.i % len(self.costs)]
        self.i += 1
        return self.ns

    def peek(self):
        return self.ns

    def advance(self, ns):
        self.ns += int(ns)


CLOCK = Clock()

real_time = time.time
real_perf = time.perf_counter

time.perf_counter_ns = lambda: CLOCK.read()
time.perf_counter = lambda: CLOCK.read() / 1e9
time.monotonic_ns = lambda: CLOCK.read()
time.monotonic = lambda: CLOCK.read() / 1e9
time.time_ns = lambda: CLOCK.read()
time.time = lambda: CLOCK.read() / 1e9

gc.disable()

if REPO not in sys.path:
    sys.path.insert(0, REPO)

# Toolkits that this run does not need are not imported (start-up time).
_backends = set(filter(None, os.environ.get("SIM_BACKENDS", "").split(",")))
if "pyside" not in _backends:
    sys.modules["PySide6"] = None
if "pygfx" not in _backends:
    sys.modules["pygfx"] = None
if "dom" in _backends:
    from . import fakedom

    sys.modules["js"] = fakedom.make_js()

import asyncio  # noqa: E402

from .loop import SimLoop, make_policy  # noqa: E402

LOOP = SimLoop(CLOCK)
asyncio.set_event_loop_policy(make_policy(LOOP))

import collagraph as cg  # noqa: E402

if "pygfx" in _backends:
    # pygfx recognises outdated values by comparing times
    import itertools

    import pygfx.utils.transform as _transform

    _transform.perf_counter_ns = itertools.count(1).__next__

assert os.path.realpath(cg.__file__).startswith(os.path.realpath(REPO) + os.sep), cg.__file__

# What is imported is not garbage
gc.collect()
gc.freeze()
