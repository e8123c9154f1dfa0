"""Controlled scheduler for two threads.

Each thread traces the lines it executes in the library (sys.settrace); every
such line is a scheduling point. Exactly one thread runs at a time. A schedule
is (first thread, k1, k2, ...): the first thread executes k1 points, the other
k2, and so on; after the last, each thread that is running runs to its end and
then the other does. A schedule with m numbers has m preemptions at most. A thread that
waits for a lock of the other lets it run to its end.
"""
import os
import sys
import threading

LIB = os.sep + 'pymultifracs' + os.sep


class Run:
    def __init__(self, bodies, schedule, horizon=200000):
        self.bodies = bodies
        self.cur, self.plan = schedule[0], list(schedule[1:])
        self.sem = [threading.Semaphore(0) for _ in bodies]
        self.done = [False] * len(bodies)
        self.points = [0] * len(bodies)
        self.result = [None] * len(bodies)
        self.error = [None] * len(bodies)
        self.horizon = horizon
        self.left = None
        self.blocked = False
        self.switches = 0
        self.lines = [set() for _ in bodies]

    def point(self, me):
        """Called before each line of thread me"""
        while self.cur != me:
            # was blocked, and overtaken
            self.sem[me].acquire()
        self.points[me] += 1
        if self.points[me] > self.horizon:
            raise RuntimeError('horizon reached')
        while self.left is not None and self.left <= 0:
            other = 1 - me
            self.next()
            if self.done[other]:
                continue
            self.switches += 1
            self.cur = other
            self.sem[other].release()
            self.wait(me, other)
        if self.left is not None:
            self.left -= 1

    def wait(self, me, other):
        """For the turn of thread me. When the other makes no progress, it
        waits for a lock held by this one, which then runs to its end"""
        seen = None
        while not self.sem[me].acquire(timeout=0.25):
            if self.done[other]:
                continue
            if seen == self.points[other]:
                self.cur, self.left, self.plan = me, None, []
                self.blocked = True
                return
            seen = self.points[other]

    def next(self):
        self.left = self.plan.pop(0) if self.plan else None

    def thread(self, me):
        self.sem[me].acquire()

        def local(frame, event, arg):
            if event == 'line':
                self.point(me)
            return local

        def glob(frame, event, arg):
            return local if LIB in frame.f_code.co_filename else None

        sys.settrace(glob)
        try:
            self.result[me] = self.bodies[me]()
        except BaseException as e:            # pylint: disable=broad-except
            self.error[me] = e
        finally:
            sys.settrace(None)
            self.done[me] = True
            other = 1 - me
            if not self.done[other]:
                # the plan goes on with the other thread
                self.next()
                self.cur = other
                self.sem[other].release()

    def go(self):
        ts = [threading.Thread(target=self.thread, args=(i,), daemon=True)
              for i in range(len(self.bodies))]
        for t in ts:
            t.start()
        self.next()
        self.sem[self.cur].release()
        for t in ts:
            t.join(60)
            if t.is_alive():
                raise RuntimeError('deadlock')
        return self
