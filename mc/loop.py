"""Virtual-time, I/O-free asyncio event loop with a controlled environment.

The loop runs every ready callback; when nothing is ready it is *quiescent* and
hands control to ``idle``: complete one parked environment call (a choice), or
advance the virtual clock to the next timer.
"""
import asyncio
import asyncio.base_events
import asyncio.events


class Deadlock(BaseException):
    """Nothing ready, nothing parked, no timer: the system can never move."""


class StepLimit(BaseException):
    pass


class _Selector:
    def __init__(self, loop):
        self.loop = loop

    def select(self, timeout):
        if timeout is None or timeout > 0:
            self.loop._quiescent(timeout)
        return ()

    def close(self):
        pass


class VLoop(asyncio.base_events.BaseEventLoop):
    def __init__(self, idle=None, max_turns=200_000):
        super().__init__()
        self._vtime = 0.0
        self._clock_resolution = 1e-9
        self._selector = _Selector(self)
        self.idle = idle  # callable(loop, has_timer) -> True if it made progress
        self.turns = 0
        self.max_turns = max_turns
        self.unhandled = []
        self.set_exception_handler(lambda loop, ctx: self.unhandled.append(ctx))

    def time(self):
        return self._vtime

    def _process_events(self, event_list):
        pass

    def _write_to_self(self):
        pass

    def _run_once(self):
        self.turns += 1
        if self.turns > self.max_turns:
            raise StepLimit(f"more than {self.max_turns} event-loop turns")
        super()._run_once()

    def _quiescent(self, timeout):
        if self._stopping:
            return
        if self.idle is not None and self.idle(self, timeout is not None):
            return
        if timeout is None:
            raise Deadlock("no task can make progress")
        self._vtime += timeout

    def close(self):
        if not self.is_closed():
            super().close()


def run(coro_fn, idle=None, max_turns=200_000):
    """Run ``await coro_fn()`` on a fresh VLoop; cancel what is left over."""
    loop = VLoop(idle=idle, max_turns=max_turns)
    try:
        return loop.run_until_complete(coro_fn())
    finally:
        loop.idle = None
        try:
            left = [t for t in asyncio.all_tasks(loop) if not t.done()]
            for t in left:
                t.cancel()
            loop.max_turns = loop.turns + 10_000
            if left:
                async def drain():
                    await asyncio.wait(left, timeout=1)

                loop.run_until_complete(drain())
        except BaseException:
            pass
        asyncio.events._set_running_loop(None)
        loop.close()


def run_sync(coro):
    """Drive a coroutine that never really suspends (or only sleeps)."""

    async def go():
        return await coro

    return run(go)
