"""A deterministic scheduler: several threads run code of melodia, exactly one at a time, and hand over at generated points.

Every line, call and return event inside the sources of melodia is a possible point of hand-over, also inside a comparison called by list.sort.
A schedule is a list of run lengths (in events); thread after thread runs for the next length.  If the code under test blocks on a lock that
a paused thread holds, the paused thread goes on after a short time, so such code is slow but not blamed.
"""
import sys
import threading

ROOT = '/repo/'
STALL = 0.25


class Scheduler:
    def __init__(self, functions, schedule):
        self.functions, self.schedule = functions, list(schedule) or [1]
        self.at = 0
        self.events = 0
        self.switches = 0
        self.budget = 0
        n = len(functions)
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        self.alive = [True] * n
        self.results = [None] * n
        self.stalled = False

    def next_budget(self):
        b = self.schedule[self.at % len(self.schedule)]
        self.at += 1
        return max(1, b)

    def hand_over(self, i):
        n = len(self.alive)
        for d in range(1, n + 1):
            j = (i + d) % n
            if self.alive[j]:
                break
        else:
            return
        self.budget = self.next_budget()
        if j == i:
            return
        self.switches += 1
        self.sems[j].release()
        if self.alive[i]:
            seen = self.events
            while not self.sems[i].acquire(timeout=STALL):
                if self.events == seen:          # nobody runs: a lock is held by a paused thread
                    self.stalled = True
                    return
                seen = self.events

    def tracer(self, i):
        def local(frame, event, arg):
            self.events += 1
            self.budget -= 1
            if self.budget <= 0:
                self.hand_over(i)
            return local

        def start(frame, event, arg):
            return local(frame, event, arg) if frame.f_code.co_filename.startswith(ROOT) else None

        return start

    def body(self, i):
        self.sems[i].acquire()
        sys.settrace(self.tracer(i))
        try:
            self.results[i] = ('value', self.functions[i]())
        except BaseException as e:               # noqa: BLE001 - handed to the caller
            self.results[i] = ('error', e)
        finally:
            sys.settrace(None)
            self.alive[i] = False
            self.hand_over(i)

    def run(self):
        ts = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(len(self.functions))]
        for t in ts:
            t.start()
        self.budget = self.next_budget()
        self.sems[0].release()
        for t in ts:
            t.join()
        return self.results
