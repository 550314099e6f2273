"""Deterministic execution of trio programs: virtual time, seeded batch order,
gated worker threads. To be imported before fluidimage."""

import random
import threading

import trio
import trio.testing
import trio._core._run as _trio_run

_orig_run = trio.run
_orig_to_thread = trio.to_thread.run_sync

current = None  # the Virtual object of the current run


class Gate:
    """State of one worker thread executing a function of the code"""

    def __init__(self):
        self.arrived = threading.Event()
        self.go = threading.Event()


_tls = threading.local()


class Virtual:
    def __init__(self, seed, limit, durations=(0.0, 0.004, 0.01, 0.013, 0.03, 0.11)):
        self.seed = seed
        self.limit = limit
        self.rng = random.Random(seed)
        self.durations = durations
        self.timed_out = False
        self.nthreads = 0
        self.nruns = 0
        self.clock = None
        # to modify the date when a function is not called in a thread
        self.advance = None
        # can a thread start a long time after it is asked?
        self.late_starts = True

    def duration(self):
        return self.rng.choice(self.durations) * self.rng.uniform(0.5, 1.5)


def point():
    """Called by the functions of the works: wait (virtual time) between the
    beginning and the end of the function."""
    gate = getattr(_tls, "gate", None)
    if gate is None:
        if current is not None and current.advance is not None:
            current.advance(current.duration())
        return
    gate.arrived.set()
    gate.go.wait()


async def _run_sync(func, *args, **kwargs):
    virtual = current
    if virtual is None:
        return await _orig_to_thread(func, *args, **kwargs)
    virtual.nthreads += 1
    gate = Gate()
    box = {}

    def target():
        _tls.gate = gate
        try:
            box["ret"] = func(*args)
        except BaseException as exc:  # pylint: disable=broad-except
            box["exc"] = exc
        finally:
            _tls.gate = None
            gate.arrived.set()

    before = virtual.duration() if virtual.rng.random() < 0.3 and virtual.late_starts else 0
    if before:
        await trio.sleep(before)
    elif virtual.late_starts:
        await trio.lowlevel.checkpoint()
    thread = threading.Thread(target=target, daemon=True)
    thread.start()
    gate.arrived.wait()
    try:
        await trio.sleep(virtual.duration())
    finally:
        gate.go.set()
        thread.join()
    if "exc" in box:
        raise box["exc"]
    return box["ret"]


def _run(async_fn, *args, **kwargs):
    virtual = current
    if virtual is None:
        return _orig_run(async_fn, *args, **kwargs)
    virtual.nruns += 1

    async def main():
        with trio.move_on_after(virtual.limit) as scope:
            await async_fn(*args)
        if scope.cancelled_caught:
            virtual.timed_out = True

    kwargs.setdefault("clock", trio.testing.MockClock(autojump_threshold=0))
    virtual.clock = kwargs["clock"]
    _trio_run._ALLOW_DETERMINISTIC_SCHEDULING = True
    _trio_run._r.seed(virtual.seed)
    try:
        return _orig_run(main, **kwargs)
    finally:
        _trio_run._ALLOW_DETERMINISTIC_SCHEDULING = False


trio.run = _run
trio.to_thread.run_sync = _run_sync
