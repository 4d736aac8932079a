"""Virtual time for an in-process broker.

install() must run before the repository is imported.  time.monotonic() and
time.time() become a virtual clock that only moves when the harness calls
advance(); time.sleep() blocks on that clock; select.select() with a timeout
returns early (it acts as an idle tick) so that idle-path code runs often while
its time arithmetic still sees virtual time.  advance() returns only after all
idle loops have completed a full pass at the new time.
"""
import threading, queue, logging, socketserver, selectors, socket, ssl, http.server, subprocess  # noqa: bind real time first
import select as _select
import time as _time

real_monotonic = _time.monotonic
real_time = _time.time
real_sleep = _time.sleep
real_select = _select.select

TICK = 0.004


class VClock:
    def __init__(self):
        self.now = 1000.0
        self.wall = 1_700_000_000.0  # of the time of day, which may be set
        self.cond = threading.Condition()
        self.sleepers = {}   # thread -> target
        self.pollers = {}    # thread -> number of select entries
        self.installed = False

    # --- replacements
    def monotonic(self):
        return self.now

    def time(self):
        return self.wall + self.now

    def sleep(self, secs):
        me = threading.current_thread()
        with self.cond:
            target = self.now + secs
            self.sleepers[me] = target
            self.cond.notify_all()
            while self.now < target:
                self.cond.wait(0.5)
            # stays registered (target <= now) until the next sleep: advance() waits for it

    def select(self, r, w, x, timeout=None):
        if timeout is None or timeout == 0:
            return real_select(r, w, x, timeout)
        me = threading.current_thread()
        self.pollers[me] = self.pollers.get(me, 0) + 1
        return real_select(r, w, x, min(timeout, TICK))

    # --- harness side
    def install(self):
        if self.installed:
            return
        self.installed = True
        _time.monotonic = self.monotonic
        _time.time = self.time
        _time.sleep = self.sleep
        _select.select = self.select
        orig = socketserver.BaseServer.serve_forever

        def serve_forever(srv, poll_interval=0.01):
            return orig(srv, min(poll_interval, 0.01))
        socketserver.BaseServer.serve_forever = serve_forever

    def live_pollers(self):
        out = []
        for t in list(self.pollers):
            if t.is_alive():
                out.append(t)
            else:
                self.pollers.pop(t, None)
        return out

    def settle(self, passes=2, limit=20.0):
        """wait until all idle loops have made `passes` full passes and all sleepers sleep into the future."""
        snap = {t: self.pollers.get(t, 0) for t in self.live_pollers()}
        end = real_monotonic() + limit
        while True:
            busy = [t for t in snap if t.is_alive() and self.pollers.get(t, 0) < snap[t] + passes]
            with self.cond:
                sl = [t for t, tgt in self.sleepers.items() if t.is_alive() and tgt <= self.now]
            if not busy and not sl:
                return True
            if real_monotonic() > end:
                return False
            real_sleep(0.001)

    def advance(self, dt, step=None):
        """move virtual time forward in steps; True if all idle loops kept up."""
        ok = self.settle()      # what handles earlier packets finishes in its own time
        target = self.now + dt
        while self.now < target - 1e-9:
            d = min(step or dt, target - self.now)
            with self.cond:
                self.now = round(self.now + d, 6)
                self.cond.notify_all()
            ok = self.settle() and ok
        return ok


CLOCK = VClock()
