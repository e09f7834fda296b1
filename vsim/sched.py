"""
Baton-passing scheduler: tasks are threads of which exactly one runs at any time; it hands over only at the points where
it calls pause() (simulated I/O), and the case decides who goes on.
"""
import sys
import threading
import traceback
from vsim import core


class Task(object):
    def __init__(self, name, fn):
        self.name = name
        self.fn = fn
        self.result = None
        self.error = None
        self.tb = None
        self.done = False
        self.go = threading.Semaphore(0)


class Scheduler(object):
    def __init__(self, choices, ctx):
        self.choices = choices
        self.ctx = ctx
        self.tasks = []
        self.back = threading.Semaphore(0)
        self.current = None
        self.switches = 0
        self.order = []
        self.steps = 0

    def add(self, name, fn):
        t = Task(name, fn)
        self.tasks.append(t)
        return t

    def pause(self):
        """ called by the running task at an I/O point """
        t = self.current
        if t is None:
            return
        self.back.release()
        t.go.acquire()

    def _body(self, t):
        t.go.acquire()
        try:
            t.result = t.fn()
        except Exception as e:
            t.error = e
            t.tb = sys.exc_info()[2]
        t.done = True
        self.order.append(t.name)
        self.back.release()

    def run(self):
        for t in self.tasks:
            th = threading.Thread(target=self._body, args=(t,))
            th.setDaemon(True)
            th.start()
        last = None
        trail = []
        while True:
            ready = [t for t in self.tasks if not t.done]
            if not ready:
                break
            c = self.choices[self.steps] if self.steps < len(self.choices) else 0
            self.steps += 1
            # choice 0: whoever ran last goes on
            if c == 0 and last in ready:
                t = last
            else:
                t = ready[c % len(ready)]
            if t is not last:
                self.switches += 1
                trail.append(t.name)
            last = t
            self.current = t
            t.go.release()
            self.back.acquire()
            self.current = None
        self.ctx.ev("schedule", trail)
        self.trail = trail
        return self.tasks


def raise_if_unexpected(t):
    """ a task that died of something that is no simulated fault """
    if t.error is not None:
        raise core.Violation("task-failed", "task %s failed with %s(%s) though nothing was wrong with its data\n%s" % (
            t.name, t.error.__class__.__name__, str(t.error)[:400], "".join(traceback.format_tb(t.tb))[-3000:]))
