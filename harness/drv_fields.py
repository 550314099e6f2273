"""Random histories of operations of vector fields.

usage: drv_fields.py IN.json OUT.ndjson WORKDIR
"""

import faulthandler
import json
import math
import os
import random
import signal
import sys
import traceback
import warnings
from fractions import Fraction
from pathlib import Path

import numpy as np

from fluiddyn.util.paramcontainer import ParamContainer
from fluidimage.postproc.piv import ArrayPIV, PIV2d
from fluidimage.postproc.vector_field import (
    ArrayOfVectorFieldsOnGrid,
    VectorFieldOnGrid,
)
import hangs

BAD = [0, -9]


class Hang(BaseException):
    pass


class Skip(Exception):
    """The operation is not done"""


def num(x):
    x = float(x)
    if x != x:
        return [0, -1]
    if math.isinf(x):
        return BAD
    fr = Fraction(x)
    k = fr.denominator.bit_length() - 1
    if abs(fr.numerator) > 2**28 or k > 24:
        return BAD
    return [fr.numerator, k]


def rounded(x, bits=12):
    x = float(x)
    n = round(x * 2**bits) if math.isfinite(x) else None
    # (float32 computations)
    if n is None or abs(x * 2**bits - n) > 0.05:
        return BAD
    return num(n / 2**bits)


def mat(m, conv=num):
    m = np.asarray(m)
    assert m.ndim == 2, m.shape
    return [[conv(x) for x in line] for line in m]


def comp(v):
    if v is None:
        return {"k": "none", "v": [0, -1], "m": []}
    if isinstance(v, np.ndarray) and v.ndim == 2:
        return {"k": "arr", "v": [0, -1], "m": mat(v)}
    if isinstance(v, np.ndarray):
        raise ValueError(f"shape {v.shape} of a component")
    return {"k": "num", "v": num(v), "m": []}


def meta(f):
    names = [
        getattr(f, k + n) for k in ("name", "unit") for n in ("vx", "vy", "vz", "x", "y", "z")
    ]
    return repr((type(f).__name__, names, f.name, f.params and f.params._make_xml_text()))


def enc(f):
    assert f.x.ndim == 1 and f.y.ndim == 1
    return {
        "x": [num(v) for v in f.x],
        "y": [num(v) for v in f.y],
        "z": comp(f.z),
        "vx": mat(f.vx),
        "vy": mat(f.vy),
        "vz": comp(f.vz),
        "reg": bool(f.is_grid_regular),
        "meta": meta(f),
    }


def values(f):
    ret = []
    for v in (f["x"], f["y"], *f["vx"], *f["vy"], *f["vz"]["m"], *f["z"]["m"]):
        ret.extend(v)
    return ret + [f["vz"]["v"], f["z"]["v"]]


def bits(f):
    """Numbers of bits of the numbers with a common denominator"""
    vals = [v for v in values(f) if v != [0, -1]]
    if BAD in vals:
        raise Skip
    k = max(v[1] for v in vals)
    return max(abs(v[0]) << (k - v[1]) for v in vals).bit_length(), k


def is_pow2(v):
    return v[1] >= 0 and v[0] != 0 and abs(v[0]) & (abs(v[0]) - 1) == 0


class History:
    def __init__(self, job, workdir):
        self.rng = random.Random(job["seed"])
        self.job = job
        self.objects = []  # the fields
        self.heap = []  # their encodings
        self.arrays = []  # the arrays
        self.steps = []
        self.workdir = workdir

    def ref(self, f):
        for i, o in enumerate(self.objects):
            if o is f:
                return i + 1
        self.objects.append(f)
        return len(self.objects)

    # choices

    def field(self, cond=lambda f: True, maxbits=(18, 8)):
        ok = [
            i
            for i, f in enumerate(self.heap)
            if cond(f) and all(b <= m for b, m in zip(bits(f), maxbits))
        ]
        if not ok:
            raise Skip
        return self.rng.choice(ok) + 1

    def array(self, cond=lambda f: True, maxbits=(18, 8), size=None):
        ok = [
            i
            for i, refs in enumerate(self.refs())
            if refs
            and (size is None or len(refs) in size)
            and all(
                cond(self.heap[r - 1])
                and all(b <= m for b, m in zip(bits(self.heap[r - 1]), maxbits))
                for r in refs
            )
        ]
        if not ok:
            raise Skip
        return self.rng.choice(ok) + 1

    def target(self, cond=lambda f: True, maxbits=(18, 8)):
        """a field or an array"""
        if self.rng.random() < 0.35:
            a = self.array(cond, maxbits)
            return {"a": a}, self.arrays[a - 1], self.heap[self.refs()[a - 1][0] - 1]
        i = self.field(cond, maxbits)
        return {"i": i}, self.objects[i - 1], self.heap[i - 1]

    def refs(self):
        return [[self.ref(f) for f in a] for a in self.arrays]

    def matrix(self, ny, nx, dtype, kind):
        rng = self.rng
        if kind == "pow2":
            m = [[rng.choice([1, 2, 4, -1, -2, 0.5]) for _ in range(nx)] for _ in range(ny)]
            dtype = float
        elif kind == "const":
            m = np.full((ny, nx), rng.randint(-5, 5))
        elif kind == "linear":
            a, b, c = (rng.randint(-3, 3) for _ in range(3))
            m = [[a + b * i + c * j for j in range(nx)] for i in range(ny)]
        else:
            m = [[rng.randint(-8, 8) / rng.choice([1, 1, 2]) for _ in range(nx)] for _ in range(ny)]
        return np.array(m).astype(dtype)

    def coord(self, n):
        rng = self.rng
        d = rng.choice([0.5, 1, 2, 4])
        x = rng.randint(-5, 5) + d * np.arange(n, dtype=float)
        r = rng.random()
        if r < 0.2 and n > 2:
            x[-1] -= d * rng.choice([0.25, 0.5])
        elif r < 0.3 and n > 2:
            x[rng.randint(1, n - 1):] += 0.25
        if rng.random() < 0.3:
            x = x[::-1].copy()
        if rng.random() < 0.3 and np.all(x == x.astype(int)):
            x = x.astype(int)
        return x

    # operations: return a step with the result

    def create(self, kind=None):
        rng = self.rng
        size = self.job["size"]
        ny, nx = (s if rng.random() < 0.7 else rng.randint(2, 6) for s in size)
        x, y = self.coord(nx), self.coord(ny)
        if kind is None:
            kind = rng.choice(["any", "any", "any", "pow2", "const", "linear"])
        dtype = rng.choice([float, float, np.float32, int])
        vx, vy = (self.matrix(ny, nx, dtype, kind) for _ in range(2))
        vz = rng.choice(
            [np.nan, np.nan, rng.choice([1, 2.0, 0.5]), self.matrix(ny, nx, dtype, kind)]
        )
        if rng.random() < 0.3:
            vx = vx.astype(rng.choice([float, np.float32]))
            vy, vz = vx.copy(), vx.copy()
        z = rng.choice([None, 0, rng.randint(-3, 3), 0.5, np.array(2.0),
                        self.matrix(ny, nx, float, "any")])
        kw = {}
        if rng.random() < 0.5:
            for key in VectorFieldOnGrid._attr_saved_as_attr:
                if key != "history" and rng.random() < 0.5:
                    kw[key] = rng.choice(["a", "vitesse", "m/s", "µ"])
        if rng.random() < 0.3:
            kw["params"] = ParamContainer("params", attribs={"a": rng.randint(0, 3)})
        if rng.random() < 0.3:
            kw["history"] = ["first", "second"]
        if vz is np.nan and rng.random() < 0.5:
            args = (x, y, z, vx, vy)
        else:
            args = (x, y, z, vx, vy, vz)
        raw = {
            "x": [num(v) for v in x], "y": [num(v) for v in y],
            "z": comp(z.item() if isinstance(z, np.ndarray) and z.ndim == 0 else z),
            "vx": mat(vx), "vy": mat(vy), "vz": comp(vz),
        }
        cls = rng.choice([PIV2d, VectorFieldOnGrid])
        return {"op": "create", "raw": raw}, lambda: cls(*args, **kw)

    def number(self, which):
        rng = self.rng
        if which == "div":
            v = rng.choice([1, 2, 4, -2, 0.5])
        else:
            v = rng.choice([0, 1, -1, 2, 3, 0.5, -1.5])
        typ = rng.choice([float, np.float64, np.float32] + [int, np.int64] * (v == int(v)))
        return typ(v), v

    def op_num(self):
        rng = self.rng
        which = rng.choice(["add", "sub", "mul", "div"])
        what, obj, _ = self.target(maxbits=(13, 4))
        n, v = self.number(which)
        step = {"op": "num", "which": which, "num": num(v), **what}
        if which == "add":
            if rng.random() < 0.5:
                if v == 0:
                    step["op"] = "same" if "i" in what else "samearray"
                if isinstance(n, np.generic):
                    n = n.item()
                return step, lambda: n + obj
            return step, lambda: obj + n
        if which == "sub":
            return step, lambda: obj - n
        if which == "mul":
            if isinstance(n, np.generic) or rng.random() < 0.5:
                return step, lambda: obj * n
            return step, lambda: n * obj
        return step, lambda: obj / n

    def op_field(self):
        which = self.rng.choice(["add", "sub", "mul", "div"])

        def divisor(g):
            return all(
                is_pow2(v)
                for m in (g["vx"], g["vy"], g["vz"]["m"], [[g["vz"]["v"]]] if g["vz"]["k"] == "num" else [])
                for line in m for v in line if v != [0, -1]
            )

        j = self.field(divisor if which == "div" else lambda f: True, (13, 4))
        g = self.objects[j - 1]
        what, obj, _ = self.target(lambda f: np.shape(f["vx"])[:2] == g.vx.shape, (13, 4))
        step = {"op": "field", "which": which, "j": j, **what}
        return step, {
            "add": lambda: obj + g, "sub": lambda: obj - g,
            "mul": lambda: obj * g, "div": lambda: obj / g,
        }[which]

    def common_shape(self, what, f):
        """smallest shape of the fields of the target"""
        fields = [f] if "i" in what else [self.heap[r - 1] for r in self.refs()[what["a"] - 1]]
        return [min(len(f[k]) for f in fields) for k in "yx"]

    def op_extract(self):
        what, obj, f = self.target()
        ny, nx = self.common_shape(what, f)
        ij = []
        for n in (ny, nx):
            a, b = sorted(self.rng.sample(range(n + 1), 2))
            if b - a < 2:
                a, b = 0, n
            ij += [a, b]
        return {"op": "extract", "ints": ij, **what}, lambda: obj.extract(*ij)

    def op_phys(self):
        what, obj, f = self.target()
        fields = [f] if "i" in what else [self.heap[r - 1] for r in self.refs()[what["a"] - 1]]
        lims = []
        for k in "yx":
            xs = [Fraction(n, 2**e) for n, e in f[k]]
            a, b = sorted(self.rng.sample(range(len(xs)), 2))
            a, b = xs[a], xs[b]
            if self.rng.random() < 0.5:
                a -= Fraction(1, 8)
                b += Fraction(1, 8)
            for g in fields:
                if sum(a <= Fraction(n, 2**e) <= b for n, e in g[k]) < 2:
                    raise Skip
            lims += [float(a), float(b)]
        return (
            {"op": "phys", "nums": [num(v) for v in lims], **what},
            lambda: obj.extract(*lims, phys=True),
        )

    def op_truncate(self):
        what, obj, f = self.target()
        n = min(self.common_shape(what, f))
        cut = self.rng.choice([0, 1, 1, 2])
        if n - 2 * cut < 2:
            raise Skip
        if cut == 1 and self.rng.random() < 0.5:
            return {"op": "truncate", "ints": [1], **what}, lambda: obj.truncate()
        return {"op": "truncate", "ints": [cut], **what}, lambda: obj.truncate(cut)

    def op_square(self):
        what, obj, f = self.target()
        n = min(self.common_shape(what, f))
        cut = self.rng.choice([0, 0, 1])
        even = self.rng.random() < 0.6
        if "a" in what:
            even = True
        if n - 2 * cut - even < 2:
            raise Skip
        step = {"op": "square", "ints": [cut, int(even)], **what}
        if even:
            return step, lambda: obj.extract_square(cut)
        return step, lambda: obj.extract_square(cut, force_even=False)

    @staticmethod
    def plain(f):
        """without nan in the arrays"""
        return [0, -1] not in sum(f["vz"]["m"], []) + sum(f["z"]["m"], [])

    def op_median(self):
        rng = self.rng
        what, obj, f = self.target(self.plain)
        n = min(self.common_shape(what, f))
        sy, sx = rng.choice([(1, 1), (2, 2), (3, 3), (3, 3), (1, 3), (3, 2), (4, 1)])
        niter = rng.choice([1, 1, 2])
        valid = rng.random() < 0.6 and n - 2 * (max(sy, sx) // 2) >= 2
        size = sy if sx == sy and rng.random() < 0.6 else [sy, sx]
        return (
            {"op": "median", "ints": [sy, sx, niter, int(valid)], **what},
            lambda: obj.median_filter(size, niter=niter, valid=valid),
        )

    def op_gaussian(self):
        rng = self.rng

        def const(f):
            return self.plain(f) and all(
                len({tuple(v) for line in m for v in line}) <= 1
                for m in (f["vx"], f["vy"], f["vz"]["m"])
            )

        truncate = rng.choice([1, 2, 3])
        if rng.random() < 0.5:
            what, obj, f = self.target(const)
            sigma = rng.choice([0.5, 1, 1.5, [0.5, 1]])
        else:
            what, obj, f = self.target(self.plain)
            sigma = rng.choice([0.1, 0.15, [0.1, 0.05]])
        r = int(truncate * max(np.ravel(sigma)) + 0.5)
        if any(f.vx.dtype.kind == "i" or np.asarray(f.vz).dtype.kind == "i" and np.ndim(f.vz)
               for f in ([obj] if "i" in what else obj)):
            raise Skip  # the filtered values are truncated
        n = min(self.common_shape(what, f))
        valid = rng.random() < 0.6 and n - 2 * r >= 2

        def func():
            ret = obj.gaussian_filter(sigma, truncate=truncate, valid=valid)
            for f in [ret] if "i" in what else ret:
                f.vx, f.vy, f.vz = (np.round(v.astype(float) * 2**10) / 2**10 if np.ndim(v) else v for v in (f.vx, f.vy, f.vz))
            return ret

        return {"op": "gaussian", "ints": [r, int(valid)], **what}, func

    def op_equal(self):
        """gaussian filter of a field with equal components"""
        rng = self.rng
        i = self.field(
            lambda f: f["vz"]["k"] == "arr" and f["vx"] == f["vy"] == f["vz"]["m"] and self.plain(f), (13, 3)
        )
        obj = self.objects[i - 1]
        if any(a.dtype.kind == "i" for a in (obj.vx, obj.vy, obj.vz)):
            raise Skip
        sigma, truncate = rng.choice([0.5, 0.8, 1]), rng.choice([1, 2, 3])
        r = int(truncate * sigma + 0.5)
        valid = rng.random() < 0.5 and min(len(obj.x), len(obj.y)) - 2 * r >= 2
        niter = rng.choice([1, 1, 2])

        def func():
            ret = obj.gaussian_filter(sigma, niter=niter, truncate=truncate, valid=valid)
            for k in ("vx", "vy", "vz"):
                setattr(ret, k, np.round(getattr(ret, k).astype(float) * 2**8) / 2**8)
            return ret

        return {"op": "equal", "i": i, "ints": [r, int(valid)]}, func

    def op_saved(self):
        i = self.field()
        f = self.objects[i - 1]
        path = self.workdir / f"f{len(self.steps)}.h5"

        def func():
            f.save(path)
            try:
                ret = type(f).from_file(path, load_params=True)
            finally:
                path.unlink()
            if list(ret.history) != list(f.history):
                raise ValueError("history")
            return ret

        return {"op": "saved", "i": i}, func

    def op_regularize(self):
        def last(q):
            q = [Fraction(n, 2**e) for n, e in q]
            d = [b - a for a, b in zip(q, q[1:])]
            return len(set(d)) <= 1 or (len(q) > 3 and len(set(d[:-1])) <= 1)

        what, obj, _ = self.target(
            lambda f: f["vz"]["k"] == "num" and f["z"]["k"] != "arr" and last(f["x"]) and last(f["y"])
        )
        return {"op": "regularize", **what}, obj.regularize_grid

    def op_gradient(self):
        i = self.field(lambda f: f["reg"] and len(f["x"]) >= 3 and len(f["y"]) >= 3, (16, 6))
        f = self.objects[i - 1]
        op, order = self.rng.choice(["rotz", "divh"]), self.rng.choice([1, 2])
        func = f.compute_rotz if op == "rotz" else f.compute_divh
        return {"op": op, "i": i, "ints": [order]}, (
            func if order == 2 and self.rng.random() < 0.5 else lambda: func(edge_order=order)
        )

    def op_norm(self):
        i = self.field(maxbits=(8, 4))
        f = self.objects[i - 1]
        return {"op": "norm2", "i": i}, lambda: np.round(f.compute_norm() ** 2 * 2**10) / 2**10

    def op_fft(self):
        axes = self.rng.choice([(0, 1), 0, 1])
        which = {(0, 1): "xy", 0: "y", 1: "x"}[axes]
        i = self.field(
            lambda f: f["reg"]
            and all(len(f[k]) in (2, 4) for k in which),
            (10, 1),
        )
        f = self.objects[i - 1]

        def func():
            vx_fft, vy_fft, kx, ky, psdx, psdy = f.compute_spatial_fft(axes=axes)
            dk = 1.0
            ret = {}
            for k, kk, c in (("kx", kx, f.x), ("ky", ky, f.y)):
                if k[1] in which:
                    d = 2 * np.pi / (len(c) * (c[1] - c[0]))
                    dk *= d
                    ret[k] = [int(round(v)) if abs(v - round(v)) < 1e-6 else 9999 for v in kk / d]
                else:
                    if not np.array_equal(kk, c):
                        raise ValueError("coordinates of the spectrum")
                    ret[k] = []
            for k, v, p in (("vx", vx_fft, psdx), ("vy", vy_fft, psdy)):
                ret[k] = self.spectrum(v, p * dk)
            return ret

        return {"op": "fft", "i": i, "which": which}, func

    @staticmethod
    def spectrum(v, e):
        return {
            "fft": [[[rounded(c.real), rounded(c.imag)] for c in line] for line in v],
            "psd": mat(e, rounded),
        }

    def op_tfft(self):
        a = self.array(maxbits=(10, 1), size=(2, 4))
        arr = self.arrays[a - 1]
        if len({f.vx.shape for f in arr}) > 1:
            raise Skip
        dt = self.rng.choice([0.5, 1, 2, 0.1])
        n = len(arr)

        def func():
            arr.set_timestep(dt)
            vx_fft, vy_fft, omega, psdx, psdy = arr.compute_temporal_fft()
            d = 2 * np.pi / (n * dt)
            ret = {"kx": [int(round(v)) if abs(v - round(v)) < 1e-6 else 9999 for v in omega / d],
                   "ky": []}
            for k, v, p in (("vx", vx_fft, psdx), ("vy", vy_fft, psdy)):
                ret[k] = self.spectrum(v.reshape(n, -1), (p * d).reshape(n, -1))
            return ret

        return {"op": "tfft", "a": a}, func

    def op_times(self):
        a = self.array()
        arr = self.arrays[a - 1]
        dt = self.rng.choice([0.5, 1, 2, 3, 0.25])

        def func():
            arr.set_timestep(dt)
            return [num(t) for t in arr.times]

        return {"op": "times", "a": a, "num": num(dt)}, func

    def op_average(self):
        a = self.array(maxbits=(14, 6), size=(1, 2, 4))
        arr = self.arrays[a - 1]
        if len({f.vx.shape for f in arr}) > 1:
            raise Skip
        return {"op": "average", "a": a}, arr.compute_time_average

    def op_function(self):
        a = self.array()
        arr = self.arrays[a - 1]
        if len({f.vx.shape for f in arr}) > 1:
            raise Skip
        which = self.rng.choice(["double", "reverse", "diff"])
        func = {"double": lambda u: 2 * u, "reverse": lambda u: u[::-1], "diff": lambda u: u - u[0]}[which]
        return {"op": "function", "a": a, "which": which}, lambda: arr.apply_function_to_spatiotemp_data(func)

    def op_array(self):
        rng = self.rng
        if len(self.arrays) >= 4:
            raise Skip
        n = rng.choice([1, 2, 2, 3, 4, 4])
        i = self.field()
        shape = self.objects[i - 1].vx.shape
        same = [k + 1 for k, f in enumerate(self.objects) if f.vx.shape == shape]
        refs = [rng.choice(same) for _ in range(n)]
        fields = [self.objects[r - 1] for r in refs]
        cls = rng.choice([ArrayPIV, ArrayOfVectorFieldsOnGrid])
        return {"op": "array", "ints": refs}, lambda: cls(rng.choice([list, tuple])(fields))

    def op_list(self):
        rng = self.rng
        a = self.array()
        arr = self.arrays[a - 1]
        n = len(arr)
        shape = arr[0].vx.shape
        same = [k + 1 for k, f in enumerate(self.objects) if f.vx.shape == shape]
        i = rng.choice(same)
        f = self.objects[i - 1]
        op = rng.choice(["get", "slice", "append", "extend", "set", "del"])
        k = rng.randrange(n)
        neg = rng.choice([k, k - n])
        if op == "get":
            return {"op": op, "a": a, "ints": [k + 1]}, lambda: arr[neg]
        if op == "slice":
            if len(self.arrays) >= 4:
                raise Skip
            b, e = sorted(rng.sample(range(n + 1), 2))
            return {"op": op, "a": a, "ints": [b + 1, e]}, lambda: arr[b:e]
        if n >= 6 and op in ("append", "extend"):
            raise Skip
        if op == "append":
            return {"op": op, "a": a, "i": i}, lambda: arr.append(f)
        if op == "extend":
            j = rng.randrange(len(self.arrays)) + 1
            other = self.arrays[j - 1]
            if len(other) + n > 6 or any(g.vx.shape != shape for g in other):
                raise Skip
            return {"op": op, "a": a, "j": j}, lambda: arr.extend(list(other))
        if op == "set":
            return {"op": op, "a": a, "i": i, "ints": [k + 1]}, lambda: arr.__setitem__(neg, f)
        if n == 1:
            raise Skip
        return {"op": op, "a": a, "ints": [k + 1]}, lambda: arr.__delitem__(neg)

    # execution

    def do(self, step, func):
        step = {"i": 0, "j": 0, "a": 0, "num": [0, 0], "nums": [], "ints": [], "which": "",
                "raw": 0, "failure": "", "new": [], "chg": [], "out": [], "spectra": 0, **step}
        self.steps.append(step)
        nheap = len(self.objects)
        try:
            ret = func()
            op = step["op"]
            if op in ("rotz", "divh", "norm2"):
                step["out"] = mat(ret)
            elif op in ("fft", "tfft"):
                step["spectra"] = ret
            elif op == "times":
                step["nums"] = ret
            elif isinstance(ret, ArrayOfVectorFieldsOnGrid):
                known = [k for k, arr in enumerate(self.arrays) if arr is ret]
                if step["a"] and type(ret) is not type(self.arrays[step["a"] - 1]):
                    raise TypeError(f"array {type(ret)}")
                if not known:
                    self.arrays.append(ret)
                step["out"] = [self.ref(f) for f in ret]
                if len(ret) != len(step["out"]):
                    raise ValueError("length")
            elif isinstance(ret, VectorFieldOnGrid):
                if step["i"] and op != "get" and type(ret) is not type(self.objects[step["i"] - 1]):
                    raise TypeError(f"field {type(ret)}")
                step["out"] = [self.ref(ret)]
            elif ret is not None:
                raise TypeError(f"result {type(ret)}")
            step["arrays"] = self.refs()
            step["new"] = [enc(f) for f in self.objects[nheap:]]
            for i in range(nheap):
                e = enc(self.objects[i])
                if e != self.heap[i]:
                    step["chg"].append([i + 1, e])
                    self.heap[i] = e
            self.heap.extend(step["new"])
        except Exception as e:
            step["failure"] = f"{type(e).__name__}: {e}"[:200]
            step["trace"] = traceback.format_exc()[-1500:]
            step["arrays"] = []
            return False
        return True

    OPS = ["num"] * 3 + ["field"] * 3 + [
        "extract", "phys", "truncate", "square", "median", "median", "gaussian", "equal", "equal", "saved", "saved",
        "regularize", "gradient", "gradient", "norm", "fft", "fft", "tfft", "average", "function", "times",
        "array", "list", "list",
    ]

    def run(self):
        for _ in range(2):
            if not self.do(*self.create()):
                return
        nb = 0
        while nb < self.job["nb"]:
            nb += 1
            name = self.rng.choice(self.OPS)
            if len(self.heap) < 5 and self.rng.random() < 0.3:
                name = "create"
            if len(self.heap) > 14:
                return
            try:
                step, func = self.create() if name == "create" else getattr(self, "op_" + name)()
            except Exception:
                # Skip, or a wrong object (already recorded)
                continue
            if not self.do(step, func):
                return


def main():
    faulthandler.enable()
    path_in, path_out, workdir = sys.argv[1:4]
    workdir = Path(workdir)
    workdir.mkdir(parents=True, exist_ok=True)
    os.chdir(workdir)
    warnings.simplefilter("ignore")

    def on_alarm(*args):
        raise Hang

    signal.signal(signal.SIGALRM, on_alarm)
    with open(path_out, "w") as out:
        for job in json.load(open(path_in)):
            if hangs.skip():
                print(json.dumps(hangs.skipped(job)), file=out, flush=True)
                continue
            hist = History(job, workdir)
            signal.alarm(hangs.limit(60))
            failure = ""
            try:
                hist.run()
            except Hang:
                failure = "hang"
                hangs.hang()
            finally:
                signal.alarm(0)
            rec = {"id": job["id"], "steps": hist.steps, "failure": failure}
            print(json.dumps(rec), file=out, flush=True)


if __name__ == "__main__":
    main()
