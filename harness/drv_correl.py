"""Correlations and search of their peaks with the real classes.

usage: drv_correl.py IN.json OUT.ndjson WORKDIR
"""

import faulthandler
import hashlib
import io
import json
import os
import signal
import sys
import warnings
from contextlib import redirect_stdout
from pathlib import Path

import numpy as np

import preempt
from fluidimage.calcul.correl import correlation_classes
from fluidimage.calcul.errors import PIVError
from fluidimage.calcul.fft import classes as fft_classes
from fluidimage.data_objects.piv import ArrayCouple
from fluidimage.works.piv import multipass, singlepass
import hangs

NAN = -99999999


def scaled(value, norm):
    if norm == 0 or value != value:
        return NAN
    value = 10000 * float(value) / float(norm)
    return int(round(value)) if abs(value) < 2e5 else NAN + 1


def integer(x):
    return int(round(float(x))) if x == x and abs(x) < 1e6 else NAN


def record_map(corr, a, b):
    """What a class computes for two windows"""
    correl, norm = corr(a, b)
    dx, dy = corr.compute_displacement_from_indices(0, 0)
    back = True
    for iy, ix in np.ndindex(*correl.shape):
        ddx, ddy = corr.compute_displacement_from_indices(ix, iy)
        back = back and (ddx, ddy) == (dx - ix, dy - iy)
        back = back and corr.compute_indices_from_displacement(ddx, ddy) == (ix, iy)
    rec = {
        "zero": [integer(dy), integer(dx)],
        "map": [[scaled(v, norm) for v in row] for row in correl],
        "back": bool(back),
        "norm0": bool(norm == 0),
    }
    return rec, correl, norm


def peak(dx, dy, value):
    value = float(value)
    return [integer(dy), integer(dx), NAN if value != value else int(round(10000 * value))]


def run_correl(job):
    corr = correlation_classes[job["method"]](
        tuple(job["shape0"]),
        tuple(job["shape1"]),
        method_subpix="no_subpix",
        displacement_max=job["dmax"],
        particle_radius=job["radius"],
        nb_peaks_to_search=job["nb"],
        mode=job["mode"],
    )
    recs = []
    for a, b in job["windows"]:
        a = np.array(a, dtype=np.float32)
        b = np.array(b, dtype=np.float32)
        rec, correl, norm = record_map(corr, a, b)
        rec["others"] = []
        rec["error"] = False
        try:
            dx, dy, value, others = corr.compute_displacements_from_correl(correl, norm=norm)
        except PIVError as error:
            dx, dy, value = error.results
            rec["error"] = True
        else:
            rec["others"] = [peak(*p) for p in others or []]
        rec["d"], rec["cmax"] = peak(dx, dy, value)[:2], peak(dx, dy, value)[2]
        recs.append(rec)
    return recs


def run_piv(job):
    """The same with a PIV computation: windows taken in images"""
    params = singlepass.BaseWorkPIV.create_default_params()
    work_cls = multipass.WorkPIV
    params = work_cls.create_default_params()
    params.multipass.number = 1
    piv0 = params.piv0
    piv0.shape_crop_im0 = tuple(job["shape0"])
    piv0.shape_crop_im1 = tuple(job["shape1"])
    piv0.displacement_max = job["dmax"]
    piv0.particle_radius = job["radius"]
    piv0.nb_peaks_to_search = job["nb"]
    piv0.method_correl = job["method"]
    piv0.method_subpix = "no_subpix"
    piv0.grid.overlap = 0.0
    params.fix.correl_min = -1e6
    params.fix.threshold_diff_neighbour = None
    params.fix.displacement_max = None
    work = work_cls(params)
    work0 = work.works_piv[0]
    images = [np.array(im, dtype=job["dtype"]) for im in job["images"]]
    couple = ArrayCouple(names=("im0", "im1"), arrays=tuple(images))
    result = work0.calcul(couple)
    recs = []
    for k, (x, y) in enumerate(zip(result.xs, result.ys)):
        if result.correls[k] is None:
            continue
        windows = []
        for im, (h, w) in zip(images, (job["shape0"], job["shape1"])):
            y0, x0 = int(y) - h // 2, int(x) - w // 2
            win = im[y0 : y0 + h, x0 : x0 + w].astype(np.float32) - im.min()
            windows.append(np.ascontiguousarray(win, dtype=np.float32))
        if windows[0].shape != tuple(job["shape0"]) or windows[1].shape != tuple(job["shape1"]):
            continue
        rec, _, _ = record_map(work0.correl, *windows)
        rec["a"], rec["b"] = [w.astype(int).tolist() for w in windows]
        rec["error"] = k in result.errors
        others = result.secondary_peaks[k]
        rec["others"] = [] if rec["error"] else [peak(*p) for p in others or []]
        p = peak(result.deltaxs[k], result.deltays[k], result.correls_max[k])
        rec["d"], rec["cmax"] = p[:2], p[2]
        recs.append(rec)
    return recs


def digest(*arrays):
    h = hashlib.md5()
    for arr in arrays:
        arr = np.ascontiguousarray(arr)
        h.update(str(arr.shape).encode() + str(arr.dtype).encode() + arr.tobytes())
    return h.hexdigest()[:12]


def run_threads(job):
    """One object used by two threads, preempted at different lines"""
    rng = np.random.default_rng(job["seed"])
    if job["object"] == "fft":
        cls = fft_classes[job["cls"]]

        def create():
            return cls(8, 6)

        data = [rng.random((6, 8)).astype(cls.type_real) for _ in range(2)]

        def compute(oper, k):
            spectrum = oper.fft(data[k])
            field = oper.ifft(spectrum)
            return digest(spectrum, field)

    else:
        params = multipass.WorkPIV.create_default_params()
        params.multipass.number = job["passes"]
        params.piv0.shape_crop_im0 = 16
        params.piv0.method_correl = job["method"]
        params.piv0.nb_peaks_to_search = job["nb"]
        params.piv0.displacement_max = None
        params.multipass.use_tps = job["tps"]
        params.mask.strcrop = job["strcrop"]
        base = rng.random((40, 44)).astype(np.float32)

        def create():
            return multipass.WorkPIV(params)

        data = [base, np.roll(base, 3, axis=1), np.roll(base, 2, axis=0)]

        def compute(work, k):
            couple = ArrayCouple(names=("im0", "im1"), arrays=(data[0], data[1 + k]),
                                 params_mask=params.mask)
            result = work.calcul(couple)
            last = result.passes[-1]
            return digest(*[getattr(res, name) for res in result.passes
                            for name in ("deltaxs", "deltays", "xs", "ys", "correls_max")],
                          last.deltaxs_final, last.deltays_final,
                          np.array(sorted(last.errors)))

    calls = [[k, compute(create(), k)] for k in range(2)]
    calls += preempt.explore(create, compute, job["maxpoints"])
    return [{"calls": calls}]


class Hang(BaseException):
    pass


def on_alarm(sig, frame):
    raise Hang("timeout")


RUN = {"correl": run_correl, "piv": run_piv, "threads": run_threads}


def main():
    faulthandler.enable()
    warnings.simplefilter("ignore")
    path_in, path_out, _ = sys.argv[1:]
    jobs = json.loads(Path(path_in).read_text())
    signal.signal(signal.SIGALRM, on_alarm)
    with open(path_out, "a") as fout:
        for job in jobs:
            if hangs.skip():
                fout.write(json.dumps(hangs.skipped(job)) + "\n")
                continue
            out = {"id": job["id"], "failure": "", "recs": []}
            signal.alarm(hangs.limit(120))
            try:
                with redirect_stdout(io.StringIO()):
                    out["recs"] = RUN[job["what"]](job)
            except Hang as exc:
                hangs.hang()
                out["failure"] = repr(exc)
            except Exception as exc:  # pylint: disable=broad-except
                out["failure"] = repr(exc)[:300]
            finally:
                signal.alarm(0)
            fout.write(json.dumps(out) + "\n")
            fout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
