"""A controlled scheduler for real threads: exactly one of the threads runs at any time, and control changes hands only at
line events inside the effector package (sys.settrace), where the schedule says so.  A schedule is a list of switch points:
[k1, k2, ...] = thread 0 runs k1 events, then thread 1 runs k2 events, then thread 0 ..., and when the list is exhausted the
running thread runs to its end, then the others (in order)."""
import os
import sys
import threading

import effector

ROOT = os.path.dirname(os.path.abspath(effector.__file__)) + os.sep


class Stuck(Exception):
    pass


class Scheduler:
    def __init__(self, bodies, schedule, grain="line"):
        self.bodies, self.schedule, self.grain = bodies, list(schedule), grain
        self.locks = [threading.Semaphore(0) for _ in bodies]
        self.done = [False] * len(bodies)
        self.results = [None] * len(bodies)
        self.events = [0] * len(bodies)
        self.left = None
        self.current = None
        self.main = threading.Semaphore(0)
        self.switches = []

    # -- the threads
    def _trace(self, me):
        def local(frame, event, arg):
            if event == "line" and self.grain == "line":
                self._point(me, frame)
            return local

        def glob(frame, event, arg):
            if event == "call" and frame.f_code.co_filename.startswith(ROOT):
                if self.grain == "call":
                    self._point(me, frame)
                    return None
                return local
            return None
        return glob

    def _point(self, me, frame):
        self.events[me] += 1
        if self.left is not None:
            if self.left == 0:
                self.switches.append("%s:%d" % (os.path.basename(frame.f_code.co_filename), frame.f_lineno))
                self._next(me)
            else:
                self.left -= 1

    def _take(self):
        self.left = self.schedule.pop(0) if self.schedule else None

    def _next(self, me):
        """hand over to the next unfinished thread"""
        others = [k for k in range(len(self.bodies)) if k != me and not self.done[k]]
        self._take()
        if not others:
            return
        self.current = others[0]
        self.locks[others[0]].release()
        self.locks[me].acquire()

    def _body(self, me):
        self.locks[me].acquire()
        sys.settrace(self._trace(me))
        try:
            self.results[me] = ("ok", self.bodies[me]())
        except BaseException as e:
            self.results[me] = ("raises", "%s: %s" % (type(e).__name__, str(e)[:200]))
        finally:
            sys.settrace(None)
            self.done[me] = True
            rest = [k for k in range(len(self.bodies)) if not self.done[k]]
            if rest:
                self._take()
                self.current = rest[0]
                self.locks[rest[0]].release()
            else:
                self.main.release()

    def run(self, first=0):
        ts = [threading.Thread(target=self._body, args=(k,), daemon=True) for k in range(len(self.bodies))]
        for t in ts:
            t.start()
        self._take()
        self.locks[first].release()
        if not self.main.acquire(timeout=120):
            raise Stuck("no thread can go on")
        for t in ts:
            t.join()
        return self.results


def alone(body, grain="line"):
    """result and number of switch points of a body that runs by itself"""
    s = Scheduler([body], [], grain)
    r = s.run()
    return r[0], s.events[0]
