"""Simulated event loop.  One ready queue (FIFO, as asyncio and Qt guarantee), timers on the
virtual clock, one callback per `step`."""
import asyncio
import heapq


class SimLoop(asyncio.AbstractEventLoop):
    def __init__(self, clock):
        self.clock = clock
        self.reset()

    def reset(self):
        self.ready = []
        self.timers = []
        self.errors = []
        self.seq = 0
        self.turns = 0
        self.current = None

    # -- scheduling API used by the code under test
    def call_soon(self, callback, *args, context=None):
        h = asyncio.Handle(callback, args, self, context)
        self.ready.append(h)
        return h

    call_soon_threadsafe = call_soon

    def call_later(self, delay, callback, *args, context=None):
        return self.call_at(self.clock.peek() / 1e9 + delay, callback, *args, context=context)

    def call_at(self, when, callback, *args, context=None):
        h = asyncio.TimerHandle(when, callback, args, self, context)
        self.seq += 1
        heapq.heappush(self.timers, (when, self.seq, h))
        return h

    def _timer_handle_cancelled(self, handle):
        pass

    def time(self):
        return self.clock.peek() / 1e9

    def create_future(self):
        return asyncio.Future(loop=self)

    def create_task(self, coro, *, name=None, context=None):
        return asyncio.Task(coro, loop=self, name=name)

    def is_running(self):
        return self.current is not None

    def is_closed(self):
        return False

    def get_debug(self):
        return False

    def call_exception_handler(self, context):
        self.errors.append(context.get("exception") or context)

    # -- simulator side
    def pending(self):
        return [h for h in self.ready if not h.cancelled()]

    def idle(self):
        return not self.pending() and not [t for t in self.timers if not t[2].cancelled()]

    def step(self):
        """Run one callback. Returns False when there was nothing to do."""
        while self.timers and (
            self.timers[0][0] <= self.clock.peek() / 1e9 or not self.ready
        ):
            when, _, h = heapq.heappop(self.timers)
            if h.cancelled():
                continue
            if when > self.clock.peek() / 1e9:
                self.clock.advance((when - self.clock.peek() / 1e9) * 1e9 + 1)
            self.ready.append(h)
        while self.ready:
            h = self.ready.pop(0)
            if h.cancelled():
                continue
            self.turns += 1
            self.current = h
            try:
                h._run()
            finally:
                self.current = None
            return True
        return False


def make_policy(loop):
    try:
        from PySide6.QtAsyncio import QAsyncioEventLoopPolicy as Base
    except Exception:  # pragma: no cover
        Base = asyncio.AbstractEventLoopPolicy

    class SimPolicy(Base):
        def __init__(self):
            pass

        def get_event_loop(self):
            return loop

        def new_event_loop(self):
            return loop

        def set_event_loop(self, l):
            pass

    return SimPolicy()
