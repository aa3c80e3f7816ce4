"""asyncio event loop running on simulated time and simulated sockets.

The loop is asyncio's own SelectorEventLoop; only the selector (which waits on
real file descriptors), the self-pipe and the clock are replaced.
"""

import asyncio
import selectors

from . import core


class SimSelector(selectors.BaseSelector):
    """Selector over simulated (fake-numbered) file descriptors."""

    def __init__(self):
        self._map = {}
        self._thread = None
        self._woken = False

    def register(self, fileobj, events, data=None):
        fd = fileobj if isinstance(fileobj, int) else fileobj.fileno()
        if fd in self._map:
            raise KeyError(f"{fd} already registered")
        key = selectors.SelectorKey(fileobj, fd, events, data)
        self._map[fd] = key
        s = core.active()
        if s is not None and s.net is not None:
            s.net.watch(fd, self)
        return key

    def unregister(self, fileobj):
        fd = fileobj if isinstance(fileobj, int) else fileobj.fileno()
        key = self._map.pop(fd)
        s = core.active()
        if s is not None and s.net is not None:
            s.net.unwatch(fd, self)
        return key

    def modify(self, fileobj, events, data=None):
        fd = fileobj if isinstance(fileobj, int) else fileobj.fileno()
        key = self._map[fd]._replace(events=events, data=data)
        self._map[fd] = key
        return key

    def get_map(self):
        return self._map

    def get_key(self, fileobj):
        fd = fileobj if isinstance(fileobj, int) else fileobj.fileno()
        return self._map[fd]

    def close(self):
        s = core.active()
        if s is not None and s.net is not None:
            for fd in list(self._map):
                s.net.unwatch(fd, self)
        self._map.clear()

    def wakeup(self):
        self._woken = True
        t = self._thread
        if t is not None:
            s = core.active()
            if s is not None:
                s.wake(t, "io")

    def _ready(self):
        s = core.active()
        net = s.net
        out = []
        for fd, key in list(self._map.items()):
            if net.fd_ready(fd):
                out.append((key, key.events & selectors.EVENT_READ))
        return out

    def select(self, timeout=None):
        s = core._in_sim()
        if s is None:
            return []
        ready = self._ready()
        if ready or self._woken or (timeout is not None and timeout <= 0):
            self._woken = False
            s.yield_()
            return ready or self._ready()
        self._thread = s.current
        try:
            s.block(timeout, on="select")
        finally:
            self._thread = None
        self._woken = False
        return self._ready()


class SimLoop(asyncio.SelectorEventLoop):
    def __init__(self, selector=None):
        super().__init__(SimSelector())

    def time(self):
        return core.sim_monotonic()

    def _make_self_pipe(self):
        self._ssock = None
        self._csock = None

    def _close_self_pipe(self):
        pass

    def _write_to_self(self):
        sel = self._selector
        if sel is not None:
            sel.wakeup()

    def close(self):
        if self.is_running():
            raise RuntimeError("Cannot close a running event loop")
        if self.is_closed():
            return
        super().close()

    def call_soon_threadsafe(self, callback, *args, context=None):
        h = super().call_soon_threadsafe(callback, *args, context=context)
        return h

    def call_exception_handler(self, context):
        exc = context.get("exception")
        if isinstance(exc, core.SimKilled):
            # nothing else of a killed process runs
            raise exc
        s = core.active()
        if s is not None and not s.ending:
            import traceback

            tb = ""
            if exc is not None:
                tb = "".join(
                    traceback.format_exception(type(exc), exc, exc.__traceback__)
                )[-1500:]
            s.errors.append(f"loop exception: {context.get('message')}: {exc!r}\n{tb}")

    def __del__(self, _warn=None):
        pass


class SimPolicy(asyncio.DefaultEventLoopPolicy):
    _loop_factory = SimLoop


def install():
    asyncio.set_event_loop_policy(SimPolicy())
