"""Logical clock of region's code.

Counts the jumps (loop iterations) executed inside /repo/region through
sys.monitoring and raises StepBudget in the monitored code when a budget is
used up: "does not terminate" becomes a verdict in logical steps, not seconds.
It also notes which functions of region ran (evidence of what was reached).
"""
import os
import random
import sys
import threading
import time

REPO = os.environ.get("RVMON_REPO", "/repo")
PREFIX = os.path.join(REPO, "region") + os.sep
TOOL = 4


class StepBudget(BaseException):
    """The code under test used more steps than any sane run needs."""


class Clock:
    def __init__(self):
        self.budget = None
        self.steps = 0
        self.reached = set()
        self.on = False
        self.thread = None
        self.switches = 0
        self.codes = set()
        self.yields = None
        self.rate = 0.0
        self.injected = 0

    def install(self):
        mon = sys.monitoring
        if mon.get_tool(TOOL) is None:
            mon.use_tool_id(TOOL, "rvmon")
        ev = mon.events
        mon.register_callback(TOOL, ev.PY_START, self._start)
        mon.register_callback(TOOL, ev.JUMP, self._jump)
        mon.register_callback(TOOL, ev.LINE, self._line)
        mon.set_events(TOOL, ev.PY_START)
        self.on = True

    def _start(self, code, offset):
        mon = sys.monitoring
        if code.co_filename.startswith(PREFIX):
            self.reached.add("%s:%s" % (code.co_filename[len(PREFIX):],
                                        code.co_qualname))
            self.codes.add(code)
            self._events(code)
        return mon.DISABLE

    def _events(self, code):
        ev = sys.monitoring.events
        sys.monitoring.set_local_events(
            TOOL, code, ev.JUMP | (ev.LINE if self.yields else 0))

    def inject(self, seed, rate):
        """At random lines of region's code (a share `rate` of those executed)
        the running thread gives way to the others; seed None: no more."""
        self.yields = None if seed is None else random.Random(seed)
        self.rate = rate
        for code in list(self.codes):
            self._events(code)

    def _line(self, code, line):
        r = self.yields
        if r is not None and r.random() < self.rate:
            self.injected += 1
            time.sleep(0 if r.random() < .5 else 1e-5)

    def watch_threads(self, on):
        """Count how often region's code continues in another thread."""
        n, self.switches = self.switches, 0
        self.thread = 0 if on else None
        return n

    def _jump(self, code, src, dst):
        self.steps += 1
        if self.thread is not None:
            t = threading.get_ident()
            if t != self.thread:
                self.thread = t
                self.switches += 1
        if self.budget is not None and self.steps > self.budget:
            self.budget = None
            raise StepBudget("more than the budgeted steps")

    def start(self, budget):
        self.steps = 0
        self.budget = budget

    def stop(self):
        self.budget = None
        return self.steps


CLOCK = Clock()
