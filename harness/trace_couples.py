"""Record the events of spec/CouplesTrace.tla during the execution of a topology"""

import numpy as np
from pathlib import Path


class InjectedError(Exception):
    """Failure injected in a work"""


class Stub:
    """result of a computation which is not done"""

    def __init__(self, name):
        self.name = name

    def save(self, path=None, **kwargs):
        del path, kwargs
        return self.name


def array_names(queues):
    """Names of the images (or of their failures) in queues"""
    names = set()
    for queue in queues:
        if not hasattr(queue, "items"):
            continue
        for key, value in list(queue.items()):
            if isinstance(value, (np.ndarray, Exception)):
                names.add(str(key))
    return sorted(names)


def as_tuple(obj):
    return tuple(obj) if isinstance(obj, (tuple, list)) else (obj,)


def marker(arr):
    arr = np.asarray(arr)
    values = np.unique(arr)
    return int(values[0]) if values.size == 1 else -1


def names_of_serie(obj):
    serie = getattr(obj, "serie", None)
    return [str(n) for n in serie.get_name_arrays()] if serie is not None else []


def instrument(topology, fail_read, fail_im2im, exts=(".png", ".tif")):
    """Wrap the works; returns the list of events"""
    events = []

    def wrap_global(work):
        func = work.func_or_cls

        def wrapped(input_queue, output_queue):
            queues = as_tuple(work.input_queue)
            before = array_names(queues)
            ret = func(input_queue, output_queue)
            after = array_names(queues)
            if before != after or before:
                events.append(["make", before, after])
            return ret

        return wrapped

    def wrap(work):
        func = work.func_or_cls

        def wrapped(arg):
            if isinstance(arg, (str, Path)) and str(arg).endswith(exts):
                name = Path(arg).name
                events.append(["read", name])
                if name in fail_read:
                    raise InjectedError(name)
                return func(arg)
            if isinstance(arg, tuple) and isinstance(arg[0], str):
                name = Path(arg[0]).name
                if name in fail_im2im:
                    raise InjectedError(name)
                return func(arg)
            if hasattr(arg, "arrays") and hasattr(arg, "names"):
                arrays = arg.get_arrays() if hasattr(arg, "get_arrays") else arg.arrays
                names = [str(n) for n in arg.names]
                markers = [
                    -2 if isinstance(arr, Exception) else marker(arr) for arr in arrays
                ]
                events.append(["calc", names, markers, names_of_serie(arg)])
                return Stub(names[0])
            return func(arg)

        return wrapped

    for work in topology.works:
        kinds = as_tuple(work.kind) if work.kind is not None else ()
        if "one shot" in kinds:
            continue
        if "global" in kinds and not isinstance(work.output_queue, dict):
            # not a work making elements (mean image)
            continue
        work.func_or_cls = wrap_global(work) if "global" in kinds else wrap(work)
    return events
