"""Exploration of the interleavings of two threads with one preemption.

A computation is executed and, just before one of its lines (in fluidimage), another
thread executes another computation with the same object. All the different lines are
tried (the first and second times that they are executed).
"""

import os
import sys
import threading

import fluidimage

ROOT = os.path.dirname(os.path.abspath(fluidimage.__file__))


class Tracer:
    def __init__(self, point=None, action=None):
        self.count = {}
        self.point = point
        self.action = action

    def global_trace(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(ROOT):
            return self.local_trace
        return None

    def local_trace(self, frame, event, arg):
        if event == "line":
            key = (frame.f_code.co_filename, frame.f_lineno)
            n = self.count[key] = self.count.get(key, 0) + 1
            if self.action is not None and (key, n) == self.point:
                action, self.action = self.action, None
                action()
        return self.local_trace


def traced(func, tracer):
    old = sys.gettrace()
    sys.settrace(tracer.global_trace)
    try:
        return func()
    finally:
        sys.settrace(old)


def explore(create, compute, maxpoints, wait=0.1):
    """Results [k, compute(obj, k)] with k=0 preempted by k=1"""
    tracer = Tracer()
    obj = create()
    calls = [[0, traced(lambda: compute(obj, 0), tracer)]]
    points = [(key, 1) for key in tracer.count]
    points += [(key, 2) for key, n in tracer.count.items() if n > 1]
    if len(points) > maxpoints:
        # spread over the execution
        points = [points[i * len(points) // maxpoints] for i in range(maxpoints)]
    for point in points:
        obj = create()
        other = []

        def run_other():
            try:
                other.append([1, compute(obj, 1)])
            except BaseException as exc:  # pylint: disable=broad-except
                other.append([1, repr(exc)[:200]])

        thread = threading.Thread(target=run_other, daemon=True)

        def action():
            old = sys.gettrace()
            sys.settrace(None)
            thread.start()
            # it can be blocked by something that the first thread holds
            thread.join(wait)
            sys.settrace(old)

        tracer = Tracer(point, action)
        try:
            calls.append([0, traced(lambda: compute(obj, 0), tracer)])
        except Exception as exc:  # pylint: disable=broad-except
            calls.append([0, repr(exc)[:200]])
        if thread.ident is not None:
            thread.join(10)
            if thread.is_alive():
                other.append([1, "blocked"])
        calls += other
    return calls
