"""Threads which run one at a time and hand over at chosen lines.

Programs are functions without arguments.  `solo` runs one on its own and
returns its result with the lines of the library it went through; `together`
runs several, each in a thread of its own, which hands over to the next one
when it comes to one of its stops: (line, n) - the n-th time it gets there.
"""
import os
import sys
import threading

import normalize

ROOT = os.path.dirname(os.path.abspath(normalize.__file__)) + os.sep
_ours = {}


def ours(code):
    try:
        return _ours[code]
    except KeyError:
        # (the library, and functions handed to it)
        _ours[code] = code.co_name.startswith("user_") or \
            os.path.abspath(code.co_filename).startswith(ROOT)
        return _ours[code]


def traced(fn, tick):
    """fn() with tick((code, line)) before every line of the library"""
    def local(frame, event, arg):
        if event == "line":
            tick((frame.f_code, frame.f_lineno))
        return local

    def tracer(frame, event, arg):
        return local if ours(frame.f_code) else None
    old = sys.gettrace()
    sys.settrace(tracer)
    try:
        return fn()
    finally:
        sys.settrace(old)


def solo(fn):
    lines = {}

    def tick(line):
        lines[line] = lines.get(line, 0) + 1
    out = []
    t = threading.Thread(target=lambda: out.append(traced(fn, tick)))
    t.start()
    t.join()
    return out[0], list(lines.items())


class Together(object):
    WAIT = 0.01

    def __init__(self, programs, stops):
        """stops: for each program a set of (line, n)"""
        self.n = len(programs)
        self.sems = [threading.Semaphore(0) for _ in programs]
        self.ended = [False] * self.n
        self.results = [None] * self.n
        self.stops = stops
        self.free = False       # (a lock is held: no longer one at a time)
        self.progress = 0
        self.switches = 0
        self.done = threading.Event()
        self.threads = [
            threading.Thread(target=self.body, args=(i, p), daemon=True)
            for i, p in enumerate(programs)]

    def run(self):
        for t in self.threads:
            t.start()
        self.sems[0].release()
        last, idle = -1, 0
        while not self.done.wait(self.WAIT):
            if self.progress != last:
                last, idle = self.progress, 0
                continue
            idle += 1
            if idle == 3:
                # the running thread waits for something
                self.free = True
                for s in self.sems:
                    s.release()
            if idle * self.WAIT > 30:
                raise RuntimeError("threads do not end")
        for t in self.threads:
            t.join(10)
        return self.results

    def other(self, i):
        """the next thread after i which has not ended"""
        for k in range(1, self.n):
            j = (i + k) % self.n
            if not self.ended[j]:
                return j
        return None

    def body(self, i, program):
        self.sems[i].acquire()
        seen = {}
        mine = self.stops[i]
        watched = set(x for x, _n in mine)

        def tick(line):
            self.progress += 1
            if line in watched and not self.free:
                k = seen[line] = seen.get(line, 0) + 1
                if (line, k) in mine:
                    j = self.other(i)
                    if j is not None:
                        self.switches += 1
                        self.sems[j].release()
                        self.sems[i].acquire()
        try:
            self.results[i] = traced(program, tick)
        finally:
            self.ended[i] = True
            j = self.other(i)
            if j is None:
                self.done.set()
            else:
                self.sems[j].release()
