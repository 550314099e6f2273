"""Synthetic topologies, built with the public API of fluidimage, which record
what an executor does with them.

Events (lists): [event, ...]
  ["put", queue, key, value]      value "!..." for an exception
  ["pop", queue, key, value]
  ["start", work, key, value]
  ["end", work, key, value]
"""

import json
import os
import signal
import threading
import time

from fluidimage.topologies.base import TopologyBase, Queue
from fluidimage.topologies.splitters import SplitterFromSeries

import virt

_lock = threading.Lock()


class Recorder:
    """Record events in memory and/or in a file shared by processes"""

    def __init__(self, path=None, clock=None):
        self.clock = clock
        self.events = []
        self.path = path
        self.muted = False
        self.fd = None
        if path is not None:
            self.fd = os.open(path, os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o644)

    def __call__(self, *event):
        if self.muted:
            return
        if self.fd is not None:
            t = (self.clock or time.monotonic)()
            line = json.dumps([os.getpid(), *event, t]) + "\n"
            os.write(self.fd, line.encode())
        elif self.clock is not None:
            self.events.append([0, *event, self.clock()])
        else:
            self.events.append(list(event))


recorder = None


def rec(*event):
    if recorder is not None:
        recorder(*event)


class SynthError(Exception):
    """Exception raised by the works"""


def as_text(value):
    if isinstance(value, BaseException):
        if isinstance(value, SynthError):
            return "!" + str(value)
        return "!?" + type(value).__name__
    return str(value)


class RecQueue(Queue):
    """A queue recording what is put in and taken from it"""

    def __setitem__(self, key, value):
        super().__setitem__(key, value)
        rec("put", self.name, str(key), as_text(value))

    def popitem(self, last=True):
        key, value = super().popitem(last=last)
        rec("pop", self.name, str(key), as_text(value))
        return key, value

    def __delitem__(self, key):
        value = self[key]
        super().__delitem__(key)
        rec("pop", self.name, str(key), as_text(value))

    def pop(self, key, *args):
        # OrderedDict.pop does not call __delitem__
        present = key in self
        value = super().pop(key, *args)
        if present:
            rec("pop", self.name, str(key), as_text(value))
        return value

    def clear(self):
        for key in list(self):
            rec("clear", self.name, str(key))
        super().clear()


class Series:
    """Minimal object defining a range of subsets"""

    def __init__(self, n):
        self.ind_start = 0
        self.ind_stop = n
        self.ind_step = 1
        self.nb_series = n
        self._index_series = None

    def set_index_series(self, index_series):
        self._index_series = index_series

    def indices(self):
        if self._index_series is not None:
            return list(self._index_series)
        return list(range(self.ind_start, self.ind_stop, self.ind_step))


_ncalls = 0


def send_signal(at, pid, path):
    """Send the stop signal during the call number `at`"""
    if path is None:
        global _ncalls
        _ncalls += 1
        if _ncalls == at:
            # the handler, at a known point of the execution
            signal.getsignal(signal.SIGUSR2)(signal.SIGUSR2, None)
            rec("signal", "", "", "")
        return
    fd = os.open(path, os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o644)
    os.write(fd, b"x")
    os.close(fd)
    if os.path.getsize(path) >= at:
        try:
            os.close(os.open(path + "_sent", os.O_CREAT | os.O_EXCL | os.O_WRONLY))
        except FileExistsError:
            return
        rec("signal", "", "", "")
        os.kill(pid, signal.SIGUSR2)


class Func:
    """Function of a work"""

    def __init__(self, name, ekv, fails, busy=None, signal_at=None, prints=None):
        self.prints = prints
        self.signal_at = signal_at
        self.name = name
        self.ekv = ekv
        self.fails = fails
        self.busy = busy
        self.__name__ = name

    def __call__(self, arg):
        if self.ekv:
            try:
                key, value = arg
            except (TypeError, ValueError):
                key, value = "?", arg
            key = str(key)
            # the key given to the work has to be the key of the item
            value = as_text(value)
            if key != key_of(value):
                value = f"{value}|KEY[{key}]"
        else:
            value = as_text(arg)
        key = key_of(value)
        rec("start", self.name, key, value)
        if self.signal_at is not None:
            send_signal(*self.signal_at)
        virt.point()
        if self.prints is not None:
            print(*self.prints.get(f"{self.name}/{key}", [""]), end="")
        if self.busy is not None:
            time.sleep(self.busy.get(f"{self.name}/{key}", 0.0))
        if [self.name, key] in self.fails:
            rec("end", self.name, key, f"!{self.name}/{key}")
            raise SynthError(f"{self.name}/{key}")
        out = f"{value}|{self.name}"
        rec("end", self.name, key, out)
        return out


def key_of(value):
    """The values carry the key of the item: "k7|wa|wb" -> "k7" """
    return value.split("|", 1)[0]


LONG = "experiment_2026-11-19_camera_left_run03_exposure_0.005_laser_on_height_120mm"


def make_key(kind, i):
    if kind == "str":
        return f"im{i}.png"
    if kind == "long":
        return f"{LONG}_{i:05d}.png"
    if kind == "ext":
        return f"im{i // 2}." + ("png", "tif")[i % 2]
    if kind == "case":
        return "im" + ("A", "a", "B", "b", "C", "c", "D", "d", "E", "e")[i] + ".png"
    if kind == "space":
        return f"my im {i}.png"
    if kind == "int":
        return i
    if kind == "tuple":
        return (i, "a")
    raise ValueError(kind)


KINDS = {
    "cpu": None,
    "io": "io",
    "io2": ("io",),
    "ekv": "eat key value",
    "ioekv": ("io", "eat key value"),
}


class TopologySynth(TopologyBase):
    """Chain of works, described by a dictionary (params)

    params: {"n", "keys", "stages": [{"name", "kind"} | {"name", "join": window}],
    "fails", "path_dir_result"}
    """

    _short_name = "synth"
    Splitter = SplitterFromSeries

    def __init__(self, params, logging_level=None, nb_max_workers=None):
        if hasattr(params, "_make_dict_attribs"):
            params = params._make_dict_attribs()
        if "json" in params:
            desc = json.loads(params["json"])
        else:
            desc = params
        self.desc = desc
        global recorder
        if recorder is None and desc.get("path_events"):
            recorder = Recorder(desc["path_events"])
        super().__init__(
            params=params,
            path_dir_src=desc["path_dir_result"],
            path_dir_result=desc["path_dir_result"],
            logging_level=logging_level,
            nb_max_workers=nb_max_workers,
        )
        n = desc["n"]
        joins = [s for s in desc["stages"] if "join" in s]
        fails = desc["fails"]
        busy = desc.get("busy")
        self.window = joins[0]["join"] if joins else 0
        queue = self.add_queue("q0")
        if joins:
            self.how_saving = "recompute"
            nsub = max(0, n - self.window + 1)
            self.series = Series(nsub)
            self.queue_subsets = self.add_queue("subsets")
            self.add_work(
                "fill",
                func_or_cls=self.fill2,
                output_queue=(self.queue_subsets, queue),
                kind=("global", "one shot"),
            )
        else:
            self.add_work(
                "fill",
                func_or_cls=self.fill,
                output_queue=queue,
                kind=("global", "one shot"),
            )
        nstages = len(desc["stages"])
        for istage, stage in enumerate(desc["stages"]):
            last = istage == nstages - 1
            qout = None if last else self.add_queue(f"q{istage + 1}")
            if "join" in stage:
                self.add_work(
                    stage["name"],
                    func_or_cls=self.join,
                    input_queue=(self.queue_subsets, queue),
                    output_queue=qout,
                    kind="global",
                )
            else:
                kind = KINDS[stage["kind"]]
                func = Func(stage["name"], "ekv" in stage["kind"], fails, busy, desc.get("signal_at"), desc.get("prints"))
                if last:
                    func = self._make_last(func)
                self.add_work(
                    stage["name"],
                    func_or_cls=func,
                    input_queue=queue,
                    output_queue=qout,
                    kind=kind,
                )
            queue = qout
        if desc.get("results", True):
            self.results = []

    def add_queue(self, name, kind=None):
        queue = RecQueue(name)
        self.queues.append(queue)
        return queue

    def _make_last(self, func):
        def last(arg):
            out = func(arg)
            if hasattr(self, "results"):
                self.results.append(out)

        return last

    def fill(self, input_queue, output_queue):
        for i in range(self.desc["n"]):
            key = make_key(self.desc["keys"], i)
            output_queue[key] = str(key)

    def fill2(self, input_queue, output_queue):
        subsets, items = output_queue
        for isub in self.series.indices():
            names = [
                make_key(self.desc["keys"], i)
                for i in range(isub, isub + self.window)
            ]
            subsets[isub] = names
            for name in names:
                items[name] = str(name)

    def join(self, input_queue, output_queue):
        """As the works forming couples of images"""
        if self.desc.get("record_join"):
            rec("start", "join", "kind='global'", "")
            virt.point()
        subsets, items = input_queue
        for isub, names in list(subsets.items()):
            if all(name in items for name in names):
                values = [items[name] for name in names]
                excs = [v for v in values if isinstance(v, Exception)]
                if excs:
                    value = excs[0]
                else:
                    text = "+".join(as_text(v).replace("|", ".") for v in values)
                    value = f"{isub}|join<{text}>"
                del subsets[isub]
                output_queue[isub] = value
                for name in names:
                    if not any(name in other for other in subsets.values()):
                        del items[name]
        if self.desc.get("record_join"):
            rec("end", "join", "kind='global'", "")


Topology = TopologySynth
