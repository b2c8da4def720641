"""Threads run one at a time, with the switches between them chosen by a schedule."""
import os
import sys
import threading

PATIENCE = 200


class Stuck(Exception):
    """a thread waits for something held by a thread which is not running"""


class Schedule:
    """The executed lines (or instructions) of the package are counted.  When a run
    of the schedule is used up the thread is stopped and the next one continues."""

    def __init__(self, package, runs, fine=False):
        self.prefix = package.rstrip(os.sep) + os.sep
        self.runs, self.fine = list(runs), fine
        self.position, self.left = 0, self.runs[0]
        self.switches = 0
        self.gates, self.alive = [], []
        self.errors = []

    def _next(self, current):
        count = len(self.gates)
        for k in range(1, count + 1):
            if self.alive[(current + k) % count]:
                return (current + k) % count
        return None

    def _step(self, current):
        self.left -= 1
        if self.left > 0:
            return
        self.position = (self.position + 1) % len(self.runs)
        self.left = self.runs[self.position]
        other = self._next(current)
        if other == current:
            return
        self.switches += 1
        self.gates[other].release()
        if not self.gates[current].acquire(timeout=PATIENCE):
            raise Stuck()

    def _tracer(self, current):
        def local(frame, event, arg):
            if event == ("opcode" if self.fine else "line"):
                self._step(current)
            return local

        def start(frame, event, arg):
            if not frame.f_code.co_filename.startswith(self.prefix):
                return None
            if self.fine:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return local
        return start

    def _body(self, current, func):
        try:
            if not self.gates[current].acquire(timeout=PATIENCE):
                raise Stuck()
            sys.settrace(self._tracer(current))
            try:
                func()
            finally:
                sys.settrace(None)
        except BaseException as error:  # pylint: disable=broad-except
            self.errors.append(error)
        finally:
            self.alive[current] = False
            other = self._next(current)
            if other is not None:
                self.gates[other].release()

    def run(self, funcs):
        self.gates = [threading.Semaphore(0) for _ in funcs]
        self.alive = [True] * len(funcs)
        threads = [threading.Thread(target=self._body, args=(i, f), daemon=True) for i, f in enumerate(funcs)]
        for t in threads:
            t.start()
        self.gates[0].release()
        for t in threads:
            t.join(PATIENCE)
        if any(t.is_alive() for t in threads):
            raise Stuck()
        if self.errors:
            raise self.errors[0]
        return self.switches
