"""Controlled scheduler for two threads running real code.

Every line of Python executed in a file of the library is a scheduling point, or every bytecode instruction in
such a file that can touch what threads share (a bounded number of visits of the same place per operation: loop
iterations beyond it are not distinguished).  Only one thread runs at a time; a
schedule is the list of numbers of points each thread is allowed to pass before the other one takes over.
Compiled code never gives up the interpreter lock, so it is one step.
"""

import dis
import sys
import threading

from .core import REPO

ROOT = REPO.rstrip("/") + "/interpolation/"


# bytecode instructions that can read or change what another thread can see
SHARED = ("LOAD_ATTR", "STORE_ATTR", "DELETE_ATTR", "STORE_SUBSCR", "DELETE_SUBSCR", "BINARY_SUBSCR", "LOAD_GLOBAL", "STORE_GLOBAL", "LOAD_NAME", "STORE_NAME", "LOAD_DEREF", "STORE_DEREF", "CALL", "CALL_FUNCTION_EX", "LOAD_METHOD", "IMPORT_NAME", "IMPORT_FROM")
_ops = {}


def shared_offsets(code):
    if code not in _ops:
        _ops[code] = {i.offset for i in dis.get_instructions(code) if i.opname in SHARED}
    return _ops[code]


class Hung(Exception):
    pass


class Run:
    """One execution under a schedule.  programs: two lists of (label, callable)."""

    LIMIT = 60

    def __init__(self, programs, start, budget, visits=2, opcodes=False):
        self.opcodes = opcodes
        self.programs = programs
        self.budget = list(budget)  # points passed before each switch; then the thread runs to its end
        self.start = start
        self.visits = visits
        self.locks = [threading.Semaphore(0), threading.Semaphore(0)]
        self.done = [False, False]
        self.over = threading.Semaphore(0)
        self.points = [0, 0]
        self.current = start
        self.left = self.budget.pop(0) if self.budget else None
        self.unused = False  # the last switch asked for did not happen
        self.events = []  # (kind, thread, operation number, result)
        self.where = []
        self.inop = [False, False]

    # ---- running
    def switch(self, me):
        other = 1 - me
        if self.done[other]:
            self.left = None
            return
        self.left = self.budget.pop(0) if self.budget else None
        self.current = other
        self.locks[other].release()
        if not self.locks[me].acquire(timeout=self.LIMIT):
            raise Hung("thread did not get its turn")

    def point(self, me, frame):
        self.points[me] += 1
        if self.left is not None:
            if self.left == 0:
                self.where.append((me, frame.f_code.co_name, frame.f_lineno))
                self.switch(me)
            else:
                self.left -= 1

    def tracer(self, me):
        seen = {}

        def local(frame, event, arg):
            if event == "opcode":
                if frame.f_lasti not in shared_offsets(frame.f_code):
                    return local
                k = (frame.f_code, -1 - frame.f_lasti)
            elif event == "line":
                k = (frame.f_code, frame.f_lineno)
            else:
                return local
            c = seen.get(k, 0) + 1
            seen[k] = c
            if c <= self.visits:
                self.point(me, frame)
            return local

        def glob(frame, event, arg):
            if frame.f_code.co_filename.startswith(ROOT):
                if self.opcodes:
                    frame.f_trace_opcodes = True
                    frame.f_trace_lines = False
                return local
            return None

        return glob, seen

    def body(self, me):
        if not self.locks[me].acquire(timeout=self.LIMIT):
            return
        glob, seen = self.tracer(me)
        for n, (label, op) in enumerate(self.programs[me]):
            self.events.append(("call", me, n, None))
            seen.clear()
            sys.settrace(glob)
            try:
                r = op()
            except Hung:
                raise
            except BaseException as e:
                r = e
            finally:
                sys.settrace(None)
            self.events.append(("return", me, n, r))
        self.done[me] = True
        if self.left is not None and self.current == me:
            self.unused = True
        if not self.done[1 - me]:
            self.left = self.budget.pop(0) if self.budget else None
            self.current = 1 - me
            self.locks[1 - me].release()
        else:
            self.over.release()

    def execute(self):
        ts = [threading.Thread(target=self.body, args=(k,), daemon=True) for k in (0, 1)]
        for t in ts:
            t.start()
        self.locks[self.start].release()
        if not self.over.acquire(timeout=self.LIMIT):
            raise Hung(f"threads did not finish; switches at {self.where}")
        for t in ts:
            t.join(self.LIMIT)
        return self


def explore(make, preemptions, visits=2, opcodes=False):
    """Run every schedule with at most that many preemptions.  make() -> fresh programs.  Yields Run."""
    for start in (0, 1):
        yield Run(make(), start, [], visits, opcodes).execute()
        yield from _deeper(make, start, [], preemptions, visits, opcodes)


def _deeper(make, start, prefix, left, visits, opcodes):
    if left == 0:
        return
    k = 0
    while True:
        run = Run(make(), start, prefix + [k], visits, opcodes).execute()
        if run.unused or len(run.where) < len(prefix) + 1:
            return  # the thread ended before passing k points
        yield run
        yield from _deeper(make, start, prefix + [k], left - 1, visits, opcodes)
        k += 1


def linearisable(events, spec):
    """Is there a sequential order of the operations, respecting real time, with these results?
    spec(order) -> True if running the operations (thread, number) in that order explains the results."""
    calls, rets = {}, {}
    for pos, (kind, t, n, r) in enumerate(events):
        (calls if kind == "call" else rets)[t, n] = pos
    ops = list(calls)
    results = {(t, n): r for kind, t, n, r in events if kind == "return"}

    def rec(order, rest):
        if not rest:
            return spec(order, results)
        for o in rest:
            # o may come next if no other remaining operation returned before o was called
            if all(rets[q] > calls[o] for q in rest if q != o):
                if rec(order + [o], [q for q in rest if q != o]):
                    return True
        return False

    return rec([], ops)
